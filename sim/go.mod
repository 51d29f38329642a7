module verifsim

go 1.23

require (
	github.com/abema/go-mp4 v0.0.0
	github.com/google/uuid v1.1.2
	gopkg.in/yaml.v2 v2.2.8
)

require (
	github.com/sunfish-shogi/bufseekio v0.0.0-20210207115823-a4185644b365 // indirect
	golang.org/x/sys v0.0.0-20210615035016-665e8c7367d1 // indirect
	golang.org/x/term v0.0.0-20210927222741-03fcf44c2211 // indirect
)

replace github.com/abema/go-mp4 => /repo
