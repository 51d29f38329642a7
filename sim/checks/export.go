package checks

import (
	"github.com/abema/go-mp4"
	"verifsim/core"
	"verifsim/model"
)

// For the other check packages.
var (
	At        = at
	DrawOff   = drawOff
	DrawCtx   = drawCtx
	Garbage   = garbage
	Sut       = sut
	Cut       = cut
	RealLib   = realLib
	StubIO    = stubIO
	BadVer    = badVersion
	HashBytes = hashBytes
)

// Mutate corrupts a copy of a file in drawn ways.
func Mutate(e *core.Env, b []byte, nodes []*model.Node, media *model.Media) ([]byte, string) {
	f := &fileCase{b: append([]byte(nil), b...), nodes: nodes, media: media}
	f.mutate(e)
	return f.b, f.edits
}

// Rate is the average bitrate of samples.
func Rate(s mp4.Samples, ts uint32) uint64 {
	var size, dur uint64
	for _, x := range s {
		size += uint64(x.Size)
		dur += uint64(x.TimeDelta)
	}
	return rate(size, dur, ts)
}

// MaxRate is the highest bitrate over windows of td.
func MaxRate(s mp4.Samples, ts uint32, td uint64) uint64 { return maxRate(s, ts, td) }

// SegRates are the average and the highest bitrate of a track's segments.
func SegRates(l mp4.Segments, id uint32, ts uint32) (uint64, uint64) {
	var size, dur, mx uint64
	for _, s := range l {
		if s.TrackID == id {
			size += uint64(s.Size)
			dur += uint64(s.Duration)
			if r := rate(uint64(s.Size), uint64(s.Duration), ts); r > mx {
				mx = r
			}
		}
	}
	return rate(size, dur, ts), mx
}
