// Code generated by tools/genuser.py; DO NOT EDIT.

package userbox

import (
	"io"

	"github.com/abema/go-mp4"
	bridge "github.com/abema/go-mp4/verifbridge"
)

var _ io.Reader

type S6 struct {
	mp4.BaseCustomFieldObject
	F7 uint8  `mp4:"1,size=8"`
	F8 uint64 `mp4:"2,ver=2,size=26"`
	F9 uint16 `mp4:"3,ver=1,hex,size=16"`
}

var specS6 = []*F{
	{Name: "F7", Kind: "uint", Bits: 8, HookBits: 8, Ver: -1, NVer: -1, Hook: "override"},
	{Name: "F8", Kind: "uint", Bits: 26, Ver: 2, NVer: -1},
	{Name: "F9", Kind: "uint", Bits: 16, HookBits: 2, Ver: 1, NVer: -1, Hook: "prefix"},
}

func (b *S6) GetFieldSize(name string, ctx mp4.Context) uint { return fieldSize(b, specS6, name, ctx) }
func (b *S6) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS6, name, ctx)
}
func (b *S6) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS6, name, ctx)
}
func (b *S6) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS6, name, s, left, ctx)
}
func (b *S6) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS6, name, r, left, ctx)
}
func (b *S6) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS6, name, w, ctx)
}

type S3 struct {
	F4 []uint64 `mp4:"1,size=30,len=1"`
	F5 []*S6    `mp4:"2,len=1"`
}

var specS3 = []*F{
	{Name: "F4", Kind: "slice", Bits: 30, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 30, Ver: -1, NVer: -1}},
	{Name: "F5", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S6", Fields: []*F{{Name: "F7", Kind: "uint", Bits: 8, HookBits: 8, Ver: -1, NVer: -1, Hook: "override"}, {Name: "F8", Kind: "uint", Bits: 26, Ver: 2, NVer: -1}, {Name: "F9", Kind: "uint", Bits: 16, HookBits: 2, Ver: 1, NVer: -1, Hook: "prefix"}}}}},
}

type S14 struct {
	F15 uint16 `mp4:"1,size=4"`
	F16 int    `mp4:"2,size=64,ver=1"`
}

var specS14 = []*F{
	{Name: "F15", Kind: "uint", Bits: 4, Ver: -1, NVer: -1},
	{Name: "F16", Kind: "int", Bits: 64, Ver: 1, NVer: -1},
}

type S18 struct {
	mp4.BaseCustomFieldObject
	F20    []uint32 `mp4:"3,varint,len=dynamic"`
	F20Len uint16   `mp4:"2,size=16"`
	F19    [3]Octet `mp4:"1,dec,size=8"`
}

var specS18 = []*F{
	{Name: "F19", Kind: "array", Bits: 8, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F20Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F20", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
}

func (b *S18) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS18, name, ctx)
}
func (b *S18) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS18, name, ctx)
}
func (b *S18) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS18, name, ctx)
}
func (b *S18) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS18, name, s, left, ctx)
}
func (b *S18) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS18, name, r, left, ctx)
}
func (b *S18) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS18, name, w, ctx)
}

type S22 struct {
	A22 uint8  `mp4:"1,size=3"`
	B22 int16  `mp4:"2,size=13"`
	C22 string `mp4:"3,string"`
}

var specS22 = []*F{
	{Name: "A22", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "B22", Kind: "int", Bits: 13, Ver: -1, NVer: -1},
	{Name: "C22", Kind: "string", Ver: -1, NVer: -1},
}

type S51 struct {
	mp4.BaseCustomFieldObject
	F52 uint32 `mp4:"1,size=28"`
	F53 bool   `mp4:"2,ver=0,size=7"`
}

var specS51 = []*F{
	{Name: "F52", Kind: "uint", Bits: 28, Ver: -1, NVer: -1},
	{Name: "F53", Kind: "bool", Bits: 7, Ver: 0, NVer: -1},
}

func (b *S51) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS51, name, ctx)
}
func (b *S51) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS51, name, ctx)
}
func (b *S51) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS51, name, ctx)
}
func (b *S51) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS51, name, s, left, ctx)
}
func (b *S51) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS51, name, r, left, ctx)
}
func (b *S51) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS51, name, w, ctx)
}

type S71 struct {
	F72 uint32   `mp4:"1,varint"`
	F74 []uint32 `mp4:"3,len=6,varint"`
	F73 [2]uint8 `mp4:"2,size=8"`
}

var specS71 = []*F{
	{Name: "F72", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F73", Kind: "array", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F74", Kind: "slice", Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
}

type S76 struct {
	F77 uint64 `mp4:"1,size=48"`
	F78 int32  `mp4:"2,size=2"`
	F79 uint8  `mp4:"3,size=2"`
}

var specS76 = []*F{
	{Name: "F77", Kind: "uint", Bits: 48, Ver: -1, NVer: -1},
	{Name: "F78", Kind: "int", Bits: 2, Ver: -1, NVer: -1},
	{Name: "F79", Kind: "uint", Bits: 2, Ver: -1, NVer: -1},
}

type S81 struct {
	F82 []uint8 `mp4:"1,size=8,dec,len=6"`
	F83 uint8   `mp4:"2,size=7"`
}

var specS81 = []*F{
	{Name: "F82", Kind: "slice", Bits: 8, Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F83", Kind: "uint", Bits: 7, Ver: -1, NVer: -1},
}

type S91 struct {
	F92 uint64 `mp4:"1,dec,size=64"`
	F94 string `mp4:"3,string"`
	F93 int    `mp4:"2,hex,size=48"`
}

var specS91 = []*F{
	{Name: "F92", Kind: "uint", Bits: 64, Ver: -1, NVer: -1},
	{Name: "F93", Kind: "int", Bits: 48, Ver: -1, NVer: -1},
	{Name: "F94", Kind: "string", Ver: -1, NVer: -1},
}

type S89 struct {
	F90 S91 `mp4:"1"`
}

var specS89 = []*F{
	{Name: "F90", Kind: "struct", Ver: -1, NVer: -1, Sub: "S91", Fields: []*F{{Name: "F92", Kind: "uint", Bits: 64, Ver: -1, NVer: -1}, {Name: "F93", Kind: "int", Bits: 48, Ver: -1, NVer: -1}, {Name: "F94", Kind: "string", Ver: -1, NVer: -1}}},
}

type S103 struct {
	mp4.BaseCustomFieldObject
	F104 uint64 `mp4:"1,size=24"`
}

var specS103 = []*F{
	{Name: "F104", Kind: "uint", Bits: 24, Ver: -1, NVer: -1},
}

func (b *S103) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS103, name, ctx)
}
func (b *S103) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS103, name, ctx)
}
func (b *S103) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS103, name, ctx)
}
func (b *S103) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS103, name, s, left, ctx)
}
func (b *S103) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS103, name, r, left, ctx)
}
func (b *S103) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS103, name, w, ctx)
}

type S106 struct {
	mp4.BaseCustomFieldObject
	F107 bool     `mp4:"1,size=32"`
	F108 [2]uint8 `mp4:"2,size=8,dec"`
	F109 string   `mp4:"3,string"`
}

var specS106 = []*F{
	{Name: "F107", Kind: "bool", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F108", Kind: "array", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F109", Kind: "string", Ver: -1, NVer: -1},
}

func (b *S106) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS106, name, ctx)
}
func (b *S106) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS106, name, ctx)
}
func (b *S106) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS106, name, ctx)
}
func (b *S106) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS106, name, s, left, ctx)
}
func (b *S106) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS106, name, r, left, ctx)
}
func (b *S106) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS106, name, w, ctx)
}

type S111 struct {
	F112 int32 `mp4:"1,hex,size=32"`
	F113 bool  `mp4:"2,size=32"`
	F114 int8  `mp4:"3,size=5"`
}

var specS111 = []*F{
	{Name: "F112", Kind: "int", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F113", Kind: "bool", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F114", Kind: "int", Bits: 5, Ver: -1, NVer: -1},
}

type S101 struct {
	F110 []*S111 `mp4:"3,len=4"`
	F105 S106    `mp4:"2"`
	F102 []S103  `mp4:"1,len=1"`
}

var specS101 = []*F{
	{Name: "F102", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S103", Fields: []*F{{Name: "F104", Kind: "uint", Bits: 24, Ver: -1, NVer: -1}}}},
	{Name: "F105", Kind: "struct", Ver: -1, NVer: -1, Sub: "S106", Fields: []*F{{Name: "F107", Kind: "bool", Bits: 32, Ver: -1, NVer: -1}, {Name: "F108", Kind: "array", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F109", Kind: "string", Ver: -1, NVer: -1}}},
	{Name: "F110", Kind: "slice", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S111", Fields: []*F{{Name: "F112", Kind: "int", Bits: 32, Ver: -1, NVer: -1}, {Name: "F113", Kind: "bool", Bits: 32, Ver: -1, NVer: -1}, {Name: "F114", Kind: "int", Bits: 5, Ver: -1, NVer: -1}}}}},
}

type S98 struct {
	F99  uint   `mp4:"1,size=64"`
	F100 S101   `mp4:"2"`
	F115 uint32 `mp4:"3,size=32"`
}

var specS98 = []*F{
	{Name: "F99", Kind: "uint", Bits: 64, Ver: -1, NVer: -1},
	{Name: "F100", Kind: "struct", Ver: -1, NVer: -1, Sub: "S101", Fields: []*F{{Name: "F102", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S103", Fields: []*F{{Name: "F104", Kind: "uint", Bits: 24, Ver: -1, NVer: -1}}}}, {Name: "F105", Kind: "struct", Ver: -1, NVer: -1, Sub: "S106", Fields: []*F{{Name: "F107", Kind: "bool", Bits: 32, Ver: -1, NVer: -1}, {Name: "F108", Kind: "array", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F109", Kind: "string", Ver: -1, NVer: -1}}}, {Name: "F110", Kind: "slice", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S111", Fields: []*F{{Name: "F112", Kind: "int", Bits: 32, Ver: -1, NVer: -1}, {Name: "F113", Kind: "bool", Bits: 32, Ver: -1, NVer: -1}, {Name: "F114", Kind: "int", Bits: 5, Ver: -1, NVer: -1}}}}}}},
	{Name: "F115", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
}

type S130 struct {
	F131 []Octet `mp4:"1,size=8,len=4,opt=0x100"`
	F132 uint8   `mp4:"2,size=5"`
}

var specS130 = []*F{
	{Name: "F131", Kind: "slice", Bits: 8, Len: 4, Opt: 256, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F132", Kind: "uint", Bits: 5, Ver: -1, NVer: -1},
}

type S128 struct {
	mp4.BaseCustomFieldObject
	F129 *S130 `mp4:"1"`
}

var specS128 = []*F{
	{Name: "F129", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S130", Fields: []*F{{Name: "F131", Kind: "slice", Bits: 8, Len: 4, Opt: 256, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F132", Kind: "uint", Bits: 5, Ver: -1, NVer: -1}}}},
}

func (b *S128) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS128, name, ctx)
}
func (b *S128) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS128, name, ctx)
}
func (b *S128) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS128, name, ctx)
}
func (b *S128) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS128, name, s, left, ctx)
}
func (b *S128) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS128, name, r, left, ctx)
}
func (b *S128) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS128, name, w, ctx)
}

type S137 struct {
	mp4.BaseCustomFieldObject
	F139     uint8 `mp4:"3,size=dynamic"`
	F140     bool  `mp4:"4,size=1"`
	F139Bits uint8 `mp4:"2,size=8"`
	F138     int16 `mp4:"1,size=16,opt=0x2"`
}

var specS137 = []*F{
	{Name: "F138", Kind: "int", Bits: 16, Opt: 2, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F139Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1},
	{Name: "F139", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F140", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
}

func (b *S137) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS137, name, ctx)
}
func (b *S137) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS137, name, ctx)
}
func (b *S137) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS137, name, ctx)
}
func (b *S137) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS137, name, s, left, ctx)
}
func (b *S137) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS137, name, r, left, ctx)
}
func (b *S137) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS137, name, w, ctx)
}

type S134 struct {
	F136 *S137    `mp4:"2"`
	F135 [1]uint8 `mp4:"1,nopt=0x2,size=8"`
}

var specS134 = []*F{
	{Name: "F135", Kind: "array", Bits: 8, Len: 1, NOpt: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F136", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S137", Fields: []*F{{Name: "F138", Kind: "int", Bits: 16, Opt: 2, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"}, {Name: "F139Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1}, {Name: "F139", Kind: "uint", Ver: -1, NVer: -1, DynBits: true}, {Name: "F140", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}}}},
}

type S126 struct {
	mp4.BaseCustomFieldObject
	F141 int16 `mp4:"3,size=16"`
	F133 *S134 `mp4:"2"`
	F127 S128  `mp4:"1"`
}

var specS126 = []*F{
	{Name: "F127", Kind: "struct", Ver: -1, NVer: -1, Sub: "S128", Fields: []*F{{Name: "F129", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S130", Fields: []*F{{Name: "F131", Kind: "slice", Bits: 8, Len: 4, Opt: 256, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F132", Kind: "uint", Bits: 5, Ver: -1, NVer: -1}}}}}},
	{Name: "F133", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S134", Fields: []*F{{Name: "F135", Kind: "array", Bits: 8, Len: 1, NOpt: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F136", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S137", Fields: []*F{{Name: "F138", Kind: "int", Bits: 16, Opt: 2, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"}, {Name: "F139Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1}, {Name: "F139", Kind: "uint", Ver: -1, NVer: -1, DynBits: true}, {Name: "F140", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}}}}}}},
	{Name: "F141", Kind: "int", Bits: 16, Ver: -1, NVer: -1},
}

func (b *S126) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS126, name, ctx)
}
func (b *S126) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS126, name, ctx)
}
func (b *S126) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS126, name, ctx)
}
func (b *S126) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS126, name, s, left, ctx)
}
func (b *S126) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS126, name, r, left, ctx)
}
func (b *S126) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS126, name, w, ctx)
}

type S144 struct {
	mp4.BaseCustomFieldObject
	F145 int `mp4:"1,opt=0x1,size=64"`
}

var specS144 = []*F{
	{Name: "F145", Kind: "int", Bits: 64, Opt: 1, Ver: -1, NVer: -1},
}

func (b *S144) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS144, name, ctx)
}
func (b *S144) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS144, name, ctx)
}
func (b *S144) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS144, name, ctx)
}
func (b *S144) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS144, name, s, left, ctx)
}
func (b *S144) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS144, name, r, left, ctx)
}
func (b *S144) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS144, name, w, ctx)
}

type S124 struct {
	F142 []string `mp4:"2,len=5,nver=1,string"`
	F125 []S126   `mp4:"1,len=3"`
	F143 []*S144  `mp4:"3,len=1"`
}

var specS124 = []*F{
	{Name: "F125", Kind: "slice", Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S126", Fields: []*F{{Name: "F127", Kind: "struct", Ver: -1, NVer: -1, Sub: "S128", Fields: []*F{{Name: "F129", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S130", Fields: []*F{{Name: "F131", Kind: "slice", Bits: 8, Len: 4, Opt: 256, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F132", Kind: "uint", Bits: 5, Ver: -1, NVer: -1}}}}}}, {Name: "F133", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S134", Fields: []*F{{Name: "F135", Kind: "array", Bits: 8, Len: 1, NOpt: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F136", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S137", Fields: []*F{{Name: "F138", Kind: "int", Bits: 16, Opt: 2, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"}, {Name: "F139Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1}, {Name: "F139", Kind: "uint", Ver: -1, NVer: -1, DynBits: true}, {Name: "F140", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}}}}}}}, {Name: "F141", Kind: "int", Bits: 16, Ver: -1, NVer: -1}}}},
	{Name: "F142", Kind: "slice", Len: 5, Ver: -1, NVer: 1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "F143", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S144", Fields: []*F{{Name: "F145", Kind: "int", Bits: 64, Opt: 1, Ver: -1, NVer: -1}}}}},
}

type S150 struct {
	F152 int8   `mp4:"2,size=8"`
	F151 int64  `mp4:"1,size=64"`
	F153 uint16 `mp4:"3,size=4,nver=0"`
}

var specS150 = []*F{
	{Name: "F151", Kind: "int", Bits: 64, Ver: -1, NVer: -1},
	{Name: "F152", Kind: "int", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F153", Kind: "uint", Bits: 4, Ver: -1, NVer: 0},
}

type S162 struct {
	mp4.BaseCustomFieldObject
	F163 int8 `mp4:"1,dec,opt=4,size=6"`
}

var specS162 = []*F{
	{Name: "F163", Kind: "int", Bits: 6, Opt: 4, Ver: -1, NVer: -1},
}

func (b *S162) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS162, name, ctx)
}
func (b *S162) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS162, name, ctx)
}
func (b *S162) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS162, name, ctx)
}
func (b *S162) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS162, name, s, left, ctx)
}
func (b *S162) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS162, name, r, left, ctx)
}
func (b *S162) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS162, name, w, ctx)
}

type S166 struct {
	B166 []uint8 `mp4:"2,size=8,dec"`
	A166 uint16  `mp4:"1,size=16"`
}

var specS166 = []*F{
	{Name: "A166", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B166", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S174 struct {
	F175 []uint32 `mp4:"1,len=3,ver=1,varint"`
	F176 int64    `mp4:"2,size=48,ver=2"`
	F177 uint64   `mp4:"3,opt=1,size=32"`
}

var specS174 = []*F{
	{Name: "F175", Kind: "slice", Len: 3, Ver: 1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F176", Kind: "int", Bits: 48, Ver: 2, NVer: -1},
	{Name: "F177", Kind: "uint", Bits: 32, Opt: 1, Ver: -1, NVer: -1},
}

type S195 struct {
	F197 uint8   `mp4:"2,size=2"`
	F196 []uint8 `mp4:"1,size=8,len=0"`
}

var specS195 = []*F{
	{Name: "F196", Kind: "slice", Bits: 8, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F197", Kind: "uint", Bits: 2, Ver: -1, NVer: -1},
}

type S193 struct {
	F194 S195 `mp4:"1"`
}

var specS193 = []*F{
	{Name: "F194", Kind: "struct", Ver: -1, NVer: -1, Sub: "S195", Fields: []*F{{Name: "F196", Kind: "slice", Bits: 8, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F197", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}}},
}

type S214 struct {
	mp4.BaseCustomFieldObject
	F215On bool   `mp4:"1,size=8"`
	F215   uint16 `mp4:"2,opt=dynamic,size=1"`
}

var specS214 = []*F{
	{Name: "F215On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F215", Kind: "uint", Bits: 1, Ver: -1, NVer: -1, OptDyn: true},
}

func (b *S214) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS214, name, ctx)
}
func (b *S214) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS214, name, ctx)
}
func (b *S214) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS214, name, ctx)
}
func (b *S214) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS214, name, s, left, ctx)
}
func (b *S214) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS214, name, r, left, ctx)
}
func (b *S214) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS214, name, w, ctx)
}

type S212 struct {
	F213 S214    `mp4:"1,nver=2"`
	F216 []Octet `mp4:"2,size=8,nopt=0x1,len=5"`
}

var specS212 = []*F{
	{Name: "F213", Kind: "struct", Ver: -1, NVer: 2, Sub: "S214", Fields: []*F{{Name: "F215On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F215", Kind: "uint", Bits: 1, Ver: -1, NVer: -1, OptDyn: true}}},
	{Name: "F216", Kind: "slice", Bits: 8, Len: 5, NOpt: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S224 struct {
	C224 string `mp4:"3,string"`
	A224 uint8  `mp4:"1,size=3"`
	B224 int16  `mp4:"2,size=13"`
}

var specS224 = []*F{
	{Name: "A224", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "B224", Kind: "int", Bits: 13, Ver: -1, NVer: -1},
	{Name: "C224", Kind: "string", Ver: -1, NVer: -1},
}

type S227 struct {
	B227 []uint8 `mp4:"2,size=8"`
	A227 uint16  `mp4:"1,size=8"`
}

var specS227 = []*F{
	{Name: "A227", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "B227", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S229 struct {
	A229 uint16   `mp4:"1,size=16,dec"`
	B229 []uint16 `mp4:"2,size=8"`
}

var specS229 = []*F{
	{Name: "A229", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B229", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S241 struct {
	mp4.BaseCustomFieldObject
	F244   int64  `mp4:"4,size=64"`
	F242On bool   `mp4:"1,size=8"`
	F243   uint32 `mp4:"3,size=24"`
	F242   bool   `mp4:"2,opt=dynamic,size=1"`
}

var specS241 = []*F{
	{Name: "F242On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F242", Kind: "bool", Bits: 1, HookBits: 12, Ver: -1, NVer: -1, OptDyn: true, Hook: "prefix"},
	{Name: "F243", Kind: "uint", Bits: 24, Ver: -1, NVer: -1},
	{Name: "F244", Kind: "int", Bits: 64, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"},
}

func (b *S241) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS241, name, ctx)
}
func (b *S241) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS241, name, ctx)
}
func (b *S241) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS241, name, ctx)
}
func (b *S241) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS241, name, s, left, ctx)
}
func (b *S241) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS241, name, r, left, ctx)
}
func (b *S241) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS241, name, w, ctx)
}

type S239 struct {
	mp4.BaseCustomFieldObject
	F240 []*S241 `mp4:"1,nver=2,len=0"`
}

var specS239 = []*F{
	{Name: "F240", Kind: "slice", Ver: -1, NVer: 2, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S241", Fields: []*F{{Name: "F242On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F242", Kind: "bool", Bits: 1, HookBits: 12, Ver: -1, NVer: -1, OptDyn: true, Hook: "prefix"}, {Name: "F243", Kind: "uint", Bits: 24, Ver: -1, NVer: -1}, {Name: "F244", Kind: "int", Bits: 64, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"}}}}},
}

func (b *S239) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS239, name, ctx)
}
func (b *S239) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS239, name, ctx)
}
func (b *S239) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS239, name, ctx)
}
func (b *S239) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS239, name, s, left, ctx)
}
func (b *S239) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS239, name, r, left, ctx)
}
func (b *S239) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS239, name, w, ctx)
}

type S251 struct {
	F252 [1]Octet `mp4:"1,size=8"`
}

var specS251 = []*F{
	{Name: "F252", Kind: "array", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S248 struct {
	F250 []*S251 `mp4:"2,len=2"`
	F249 uint16  `mp4:"1,size=16"`
}

var specS248 = []*F{
	{Name: "F249", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F250", Kind: "slice", Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S251", Fields: []*F{{Name: "F252", Kind: "array", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}}},
}

type S259 struct {
	B259 []uint16 `mp4:"2,size=4"`
	A259 uint16   `mp4:"1,size=16"`
}

var specS259 = []*F{
	{Name: "A259", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B259", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}},
}

type S264 struct {
	A264 uint16  `mp4:"1,size=12"`
	B264 []uint8 `mp4:"2,size=4"`
}

var specS264 = []*F{
	{Name: "A264", Kind: "uint", Bits: 12, Ver: -1, NVer: -1},
	{Name: "B264", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}},
}

type S268 struct {
	F269 int8 `mp4:"1,nopt=0x2,size=5"`
}

var specS268 = []*F{
	{Name: "F269", Kind: "int", Bits: 5, NOpt: 2, Ver: -1, NVer: -1},
}

type S275 struct {
	A275 uint16   `mp4:"1,size=16"`
	B275 []uint16 `mp4:"2,size=4"`
}

var specS275 = []*F{
	{Name: "A275", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B275", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}},
}

type S284 struct {
	A284 uint16   `mp4:"1,size=8"`
	B284 []uint16 `mp4:"2,size=4"`
}

var specS284 = []*F{
	{Name: "A284", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "B284", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}},
}

type S280 struct {
	F281 string `mp4:"1,string"`
	F282 int    `mp4:"2,size=64"`
	F283 S284   `mp4:"3,size=8"`
}

var specS280 = []*F{
	{Name: "F281", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F282", Kind: "int", Bits: 64, Ver: -1, NVer: -1},
	{Name: "F283", Kind: "struct", Sized: 8, Ver: -1, NVer: -1, Sub: "S284", Fields: []*F{{Name: "A284", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}, {Name: "B284", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}}}},
}

type S290 struct {
	F291 int8 `mp4:"1,size=2"`
}

var specS290 = []*F{
	{Name: "F291", Kind: "int", Bits: 2, Ver: -1, NVer: -1},
}

type S287 struct {
	mp4.BaseCustomFieldObject
	F288Len uint16   `mp4:"1,size=8"`
	F288    []string `mp4:"2,len=dynamic,string"`
	F289    *S290    `mp4:"3"`
}

var specS287 = []*F{
	{Name: "F288Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F288", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "F289", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S290", Fields: []*F{{Name: "F291", Kind: "int", Bits: 2, Ver: -1, NVer: -1}}}},
}

func (b *S287) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS287, name, ctx)
}
func (b *S287) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS287, name, ctx)
}
func (b *S287) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS287, name, ctx)
}
func (b *S287) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS287, name, s, left, ctx)
}
func (b *S287) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS287, name, r, left, ctx)
}
func (b *S287) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS287, name, w, ctx)
}

type S298 struct {
	A298 uint8  `mp4:"1,size=3"`
	B298 int16  `mp4:"2,size=13"`
	C298 string `mp4:"3,string"`
}

var specS298 = []*F{
	{Name: "A298", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "B298", Kind: "int", Bits: 13, Ver: -1, NVer: -1},
	{Name: "C298", Kind: "string", Ver: -1, NVer: -1},
}

type S312 struct {
	mp4.BaseCustomFieldObject
	F314     int16     `mp4:"3,size=dynamic,hex"`
	F313     [4]uint32 `mp4:"1,varint"`
	F314Bits uint8     `mp4:"2,size=8"`
}

var specS312 = []*F{
	{Name: "F313", Kind: "array", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F314Bits", Kind: "uint", Bits: 8, Max: 16, Min: 1, Ver: -1, NVer: -1},
	{Name: "F314", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
}

func (b *S312) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS312, name, ctx)
}
func (b *S312) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS312, name, ctx)
}
func (b *S312) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS312, name, ctx)
}
func (b *S312) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS312, name, s, left, ctx)
}
func (b *S312) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS312, name, r, left, ctx)
}
func (b *S312) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS312, name, w, ctx)
}

type S322 struct {
	mp4.BaseCustomFieldObject
	F323 [1]uint32 `mp4:"1,varint,opt=2"`
}

var specS322 = []*F{
	{Name: "F323", Kind: "array", Len: 1, Opt: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
}

func (b *S322) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS322, name, ctx)
}
func (b *S322) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS322, name, ctx)
}
func (b *S322) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS322, name, ctx)
}
func (b *S322) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS322, name, s, left, ctx)
}
func (b *S322) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS322, name, r, left, ctx)
}
func (b *S322) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS322, name, w, ctx)
}

type S330 struct {
	A330 uint16  `mp4:"1,size=16"`
	B330 []uint8 `mp4:"2,size=8"`
}

var specS330 = []*F{
	{Name: "A330", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B330", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S337 struct {
	mp4.BaseCustomFieldObject
	F338On bool   `mp4:"1,size=8"`
	F338   uint64 `mp4:"2,size=51,opt=dynamic,dec"`
}

var specS337 = []*F{
	{Name: "F338On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F338", Kind: "uint", Bits: 51, HookBits: 16, Ver: -1, NVer: -1, OptDyn: true, Hook: "prefix"},
}

func (b *S337) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS337, name, ctx)
}
func (b *S337) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS337, name, ctx)
}
func (b *S337) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS337, name, ctx)
}
func (b *S337) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS337, name, s, left, ctx)
}
func (b *S337) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS337, name, r, left, ctx)
}
func (b *S337) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS337, name, w, ctx)
}

type S333 struct {
	F335 bool    `mp4:"2,size=16"`
	F334 int64   `mp4:"1,size=64,hex"`
	F336 [3]S337 `mp4:"3"`
}

var specS333 = []*F{
	{Name: "F334", Kind: "int", Bits: 64, Ver: -1, NVer: -1},
	{Name: "F335", Kind: "bool", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F336", Kind: "array", Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S337", Fields: []*F{{Name: "F338On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F338", Kind: "uint", Bits: 51, HookBits: 16, Ver: -1, NVer: -1, OptDyn: true, Hook: "prefix"}}}},
}

type S349 struct {
	mp4.BaseCustomFieldObject
	F350 bool   `mp4:"1,opt=0x2,size=8"`
	F351 [4]int `mp4:"2,opt=0x100,size=24"`
	F352 uint64 `mp4:"3,size=64"`
}

var specS349 = []*F{
	{Name: "F350", Kind: "bool", Bits: 8, Opt: 2, Ver: -1, NVer: -1},
	{Name: "F351", Kind: "array", Bits: 24, Len: 4, Opt: 256, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 24, Ver: -1, NVer: -1}},
	{Name: "F352", Kind: "uint", Bits: 64, HookBits: 64, Ver: -1, NVer: -1, Hook: "override"},
}

func (b *S349) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS349, name, ctx)
}
func (b *S349) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS349, name, ctx)
}
func (b *S349) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS349, name, ctx)
}
func (b *S349) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS349, name, s, left, ctx)
}
func (b *S349) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS349, name, r, left, ctx)
}
func (b *S349) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS349, name, w, ctx)
}

type S347 struct {
	F353 int32  `mp4:"2,size=16"`
	F348 S349   `mp4:"1"`
	F354 uint32 `mp4:"3,varint,ver=1"`
}

var specS347 = []*F{
	{Name: "F348", Kind: "struct", Ver: -1, NVer: -1, Sub: "S349", Fields: []*F{{Name: "F350", Kind: "bool", Bits: 8, Opt: 2, Ver: -1, NVer: -1}, {Name: "F351", Kind: "array", Bits: 24, Len: 4, Opt: 256, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 24, Ver: -1, NVer: -1}}, {Name: "F352", Kind: "uint", Bits: 64, HookBits: 64, Ver: -1, NVer: -1, Hook: "override"}}},
	{Name: "F353", Kind: "int", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F354", Kind: "varint", Ver: 1, NVer: -1},
}

type S344 struct {
	F355 uint64 `mp4:"3,size=40"`
	F346 *S347  `mp4:"2"`
	F345 uint32 `mp4:"1,size=32"`
}

var specS344 = []*F{
	{Name: "F345", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F346", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S347", Fields: []*F{{Name: "F348", Kind: "struct", Ver: -1, NVer: -1, Sub: "S349", Fields: []*F{{Name: "F350", Kind: "bool", Bits: 8, Opt: 2, Ver: -1, NVer: -1}, {Name: "F351", Kind: "array", Bits: 24, Len: 4, Opt: 256, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 24, Ver: -1, NVer: -1}}, {Name: "F352", Kind: "uint", Bits: 64, HookBits: 64, Ver: -1, NVer: -1, Hook: "override"}}}, {Name: "F353", Kind: "int", Bits: 16, Ver: -1, NVer: -1}, {Name: "F354", Kind: "varint", Ver: 1, NVer: -1}}}},
	{Name: "F355", Kind: "uint", Bits: 40, Ver: -1, NVer: -1},
}

type S363 struct {
	F365 []string `mp4:"2,len=1,string"`
	F364 string   `mp4:"1,string"`
}

var specS363 = []*F{
	{Name: "F364", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F365", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
}

type S361 struct {
	F362 []S363 `mp4:"1,len=6"`
	F366 int    `mp4:"2,opt=0x4,size=3"`
}

var specS361 = []*F{
	{Name: "F362", Kind: "slice", Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S363", Fields: []*F{{Name: "F364", Kind: "string", Ver: -1, NVer: -1}, {Name: "F365", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}}}}},
	{Name: "F366", Kind: "int", Bits: 3, Opt: 4, Ver: -1, NVer: -1},
}

type S372 struct {
	F373 bool `mp4:"1,size=1"`
}

var specS372 = []*F{
	{Name: "F373", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
}

type S377 struct {
	mp4.BaseCustomFieldObject
	F378 int32 `mp4:"1,size=32"`
	F379 bool  `mp4:"2,size=8,opt=2"`
}

var specS377 = []*F{
	{Name: "F378", Kind: "int", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F379", Kind: "bool", Bits: 8, Opt: 2, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
}

func (b *S377) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS377, name, ctx)
}
func (b *S377) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS377, name, ctx)
}
func (b *S377) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS377, name, ctx)
}
func (b *S377) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS377, name, s, left, ctx)
}
func (b *S377) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS377, name, r, left, ctx)
}
func (b *S377) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS377, name, w, ctx)
}

type S382 struct {
	F383 string `mp4:"1,nopt=0x4,string"`
}

var specS382 = []*F{
	{Name: "F383", Kind: "string", NOpt: 4, Ver: -1, NVer: -1},
}

type S375 struct {
	F376 *S377 `mp4:"1"`
	F380 int64 `mp4:"2,nopt=0x4,size=64"`
	F381 *S382 `mp4:"3"`
}

var specS375 = []*F{
	{Name: "F376", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S377", Fields: []*F{{Name: "F378", Kind: "int", Bits: 32, Ver: -1, NVer: -1}, {Name: "F379", Kind: "bool", Bits: 8, Opt: 2, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"}}}},
	{Name: "F380", Kind: "int", Bits: 64, NOpt: 4, Ver: -1, NVer: -1},
	{Name: "F381", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S382", Fields: []*F{{Name: "F383", Kind: "string", NOpt: 4, Ver: -1, NVer: -1}}}},
}

type S369 struct {
	mp4.BaseCustomFieldObject
	F370 string `mp4:"1,string,ver=0"`
	F371 *S372  `mp4:"2"`
	F374 S375   `mp4:"3"`
}

var specS369 = []*F{
	{Name: "F370", Kind: "string", Ver: 0, NVer: -1},
	{Name: "F371", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S372", Fields: []*F{{Name: "F373", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}}}},
	{Name: "F374", Kind: "struct", Ver: -1, NVer: -1, Sub: "S375", Fields: []*F{{Name: "F376", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S377", Fields: []*F{{Name: "F378", Kind: "int", Bits: 32, Ver: -1, NVer: -1}, {Name: "F379", Kind: "bool", Bits: 8, Opt: 2, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"}}}}, {Name: "F380", Kind: "int", Bits: 64, NOpt: 4, Ver: -1, NVer: -1}, {Name: "F381", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S382", Fields: []*F{{Name: "F383", Kind: "string", NOpt: 4, Ver: -1, NVer: -1}}}}}},
}

func (b *S369) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS369, name, ctx)
}
func (b *S369) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS369, name, ctx)
}
func (b *S369) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS369, name, ctx)
}
func (b *S369) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS369, name, s, left, ctx)
}
func (b *S369) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS369, name, r, left, ctx)
}
func (b *S369) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS369, name, w, ctx)
}

type S359 struct {
	F360 *S361 `mp4:"1"`
	F367 bool  `mp4:"2,size=16"`
	F368 S369  `mp4:"3"`
}

var specS359 = []*F{
	{Name: "F360", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S361", Fields: []*F{{Name: "F362", Kind: "slice", Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S363", Fields: []*F{{Name: "F364", Kind: "string", Ver: -1, NVer: -1}, {Name: "F365", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}}}}}, {Name: "F366", Kind: "int", Bits: 3, Opt: 4, Ver: -1, NVer: -1}}}},
	{Name: "F367", Kind: "bool", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F368", Kind: "struct", Ver: -1, NVer: -1, Sub: "S369", Fields: []*F{{Name: "F370", Kind: "string", Ver: 0, NVer: -1}, {Name: "F371", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S372", Fields: []*F{{Name: "F373", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}}}}, {Name: "F374", Kind: "struct", Ver: -1, NVer: -1, Sub: "S375", Fields: []*F{{Name: "F376", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S377", Fields: []*F{{Name: "F378", Kind: "int", Bits: 32, Ver: -1, NVer: -1}, {Name: "F379", Kind: "bool", Bits: 8, Opt: 2, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"}}}}, {Name: "F380", Kind: "int", Bits: 64, NOpt: 4, Ver: -1, NVer: -1}, {Name: "F381", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S382", Fields: []*F{{Name: "F383", Kind: "string", NOpt: 4, Ver: -1, NVer: -1}}}}}}}},
}

type S386 struct {
	F387 uint32 `mp4:"1,varint"`
	F388 bool   `mp4:"2,size=8"`
}

var specS386 = []*F{
	{Name: "F387", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F388", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
}

type S390 struct {
	A390 uint8  `mp4:"1,size=3,dec"`
	B390 int16  `mp4:"2,size=13"`
	C390 string `mp4:"3,string"`
}

var specS390 = []*F{
	{Name: "A390", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "B390", Kind: "int", Bits: 13, Ver: -1, NVer: -1},
	{Name: "C390", Kind: "string", Ver: -1, NVer: -1},
}

type S405 struct {
	B405 []uint8 `mp4:"2,size=2"`
	A405 uint16  `mp4:"1,size=4"`
}

var specS405 = []*F{
	{Name: "A405", Kind: "uint", Bits: 4, Ver: -1, NVer: -1},
	{Name: "B405", Kind: "slice", Bits: 2, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}},
}

type S409 struct {
	mp4.BaseCustomFieldObject
	F412   int64     `mp4:"4,size=32"`
	F410   uint64    `mp4:"2,opt=dynamic,size=1"`
	F411   [2]uint32 `mp4:"3,varint"`
	F410On bool      `mp4:"1,size=8"`
}

var specS409 = []*F{
	{Name: "F410On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F410", Kind: "uint", Bits: 1, Ver: -1, NVer: -1, OptDyn: true, Hook: "peek"},
	{Name: "F411", Kind: "array", Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F412", Kind: "int", Bits: 32, Ver: -1, NVer: -1},
}

func (b *S409) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS409, name, ctx)
}
func (b *S409) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS409, name, ctx)
}
func (b *S409) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS409, name, ctx)
}
func (b *S409) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS409, name, s, left, ctx)
}
func (b *S409) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS409, name, r, left, ctx)
}
func (b *S409) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS409, name, w, ctx)
}

type S407 struct {
	mp4.BaseCustomFieldObject
	F408 S409   `mp4:"1"`
	F413 int16  `mp4:"2,size=16"`
	F414 uint64 `mp4:"3,size=32"`
}

var specS407 = []*F{
	{Name: "F408", Kind: "struct", Ver: -1, NVer: -1, Sub: "S409", Fields: []*F{{Name: "F410On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F410", Kind: "uint", Bits: 1, Ver: -1, NVer: -1, OptDyn: true, Hook: "peek"}, {Name: "F411", Kind: "array", Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}, {Name: "F412", Kind: "int", Bits: 32, Ver: -1, NVer: -1}}},
	{Name: "F413", Kind: "int", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F414", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
}

func (b *S407) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS407, name, ctx)
}
func (b *S407) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS407, name, ctx)
}
func (b *S407) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS407, name, ctx)
}
func (b *S407) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS407, name, s, left, ctx)
}
func (b *S407) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS407, name, r, left, ctx)
}
func (b *S407) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS407, name, w, ctx)
}

type S402 struct {
	mp4.BaseCustomFieldObject
	F403     []uint32 `mp4:"1,len=3,size=16"`
	F404Bits uint8    `mp4:"2,size=8"`
	F406     S407     `mp4:"4"`
	F404     S405     `mp4:"3,size=dynamic"`
}

var specS402 = []*F{
	{Name: "F403", Kind: "slice", Bits: 16, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}},
	{Name: "F404Bits", Kind: "uint", Bits: 8, Max: 15, Min: 1, Ver: -1, NVer: -1, Times8: true},
	{Name: "F404", Kind: "struct", Ver: -1, NVer: -1, DynBits: true, Sub: "S405", Fields: []*F{{Name: "A405", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}, {Name: "B405", Kind: "slice", Bits: 2, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}}}},
	{Name: "F406", Kind: "struct", Ver: -1, NVer: -1, Sub: "S407", Fields: []*F{{Name: "F408", Kind: "struct", Ver: -1, NVer: -1, Sub: "S409", Fields: []*F{{Name: "F410On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F410", Kind: "uint", Bits: 1, Ver: -1, NVer: -1, OptDyn: true, Hook: "peek"}, {Name: "F411", Kind: "array", Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}, {Name: "F412", Kind: "int", Bits: 32, Ver: -1, NVer: -1}}}, {Name: "F413", Kind: "int", Bits: 16, Ver: -1, NVer: -1}, {Name: "F414", Kind: "uint", Bits: 32, Ver: -1, NVer: -1}}},
}

func (b *S402) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS402, name, ctx)
}
func (b *S402) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS402, name, ctx)
}
func (b *S402) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS402, name, ctx)
}
func (b *S402) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS402, name, s, left, ctx)
}
func (b *S402) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS402, name, r, left, ctx)
}
func (b *S402) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS402, name, w, ctx)
}

type S416 struct {
	mp4.BaseCustomFieldObject
	F417 uint8 `mp4:"1,size=8"`
}

var specS416 = []*F{
	{Name: "F417", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
}

func (b *S416) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS416, name, ctx)
}
func (b *S416) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS416, name, ctx)
}
func (b *S416) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS416, name, ctx)
}
func (b *S416) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS416, name, s, left, ctx)
}
func (b *S416) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS416, name, r, left, ctx)
}
func (b *S416) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS416, name, w, ctx)
}

type S421 struct {
	mp4.BaseCustomFieldObject
	F422    uint16   `mp4:"1,size=16"`
	F423Len uint16   `mp4:"2,size=8"`
	F423    []uint32 `mp4:"3,len=dynamic,varint"`
	F424    bool     `mp4:"4,size=32"`
}

var specS421 = []*F{
	{Name: "F422", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F423Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F423", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F424", Kind: "bool", Bits: 32, Ver: -1, NVer: -1},
}

func (b *S421) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS421, name, ctx)
}
func (b *S421) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS421, name, ctx)
}
func (b *S421) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS421, name, ctx)
}
func (b *S421) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS421, name, s, left, ctx)
}
func (b *S421) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS421, name, r, left, ctx)
}
func (b *S421) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS421, name, w, ctx)
}

type S434 struct {
	F437 []uint8 `mp4:"3,len=6,size=8"`
	F435 uint16  `mp4:"1,size=16"`
	F436 uint32  `mp4:"2,varint"`
}

var specS434 = []*F{
	{Name: "F435", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F436", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F437", Kind: "slice", Bits: 8, Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S431 struct {
	F432 bool `mp4:"1,size=8"`
	F433 S434 `mp4:"2"`
}

var specS431 = []*F{
	{Name: "F432", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F433", Kind: "struct", Ver: -1, NVer: -1, Sub: "S434", Fields: []*F{{Name: "F435", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "F436", Kind: "varint", Ver: -1, NVer: -1}, {Name: "F437", Kind: "slice", Bits: 8, Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}},
}

type S440 struct {
	A440 uint16  `mp4:"1,dec,size=16"`
	B440 []uint8 `mp4:"2,size=8"`
}

var specS440 = []*F{
	{Name: "A440", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B440", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S455 struct {
	F456 uint32   `mp4:"1,size=16,nopt=0x100"`
	F457 [5]uint8 `mp4:"2,size=8"`
	F458 string   `mp4:"3,string,opt=0x100"`
}

var specS455 = []*F{
	{Name: "F456", Kind: "uint", Bits: 16, NOpt: 256, Ver: -1, NVer: -1},
	{Name: "F457", Kind: "array", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F458", Kind: "string", Opt: 256, Ver: -1, NVer: -1},
}

type S452 struct {
	mp4.BaseCustomFieldObject
	F453Bits uint8 `mp4:"1,size=8,dec"`
	F453     uint8 `mp4:"2,size=dynamic"`
	F454     *S455 `mp4:"3"`
}

var specS452 = []*F{
	{Name: "F453Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1},
	{Name: "F453", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F454", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S455", Fields: []*F{{Name: "F456", Kind: "uint", Bits: 16, NOpt: 256, Ver: -1, NVer: -1}, {Name: "F457", Kind: "array", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F458", Kind: "string", Opt: 256, Ver: -1, NVer: -1}}}},
}

func (b *S452) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS452, name, ctx)
}
func (b *S452) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS452, name, ctx)
}
func (b *S452) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS452, name, ctx)
}
func (b *S452) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS452, name, s, left, ctx)
}
func (b *S452) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS452, name, r, left, ctx)
}
func (b *S452) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS452, name, w, ctx)
}

type S449 struct {
	F450 string `mp4:"1,string"`
	F459 int8   `mp4:"3,nopt=0x2,size=8"`
	F451 *S452  `mp4:"2"`
}

var specS449 = []*F{
	{Name: "F450", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F451", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S452", Fields: []*F{{Name: "F453Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1}, {Name: "F453", Kind: "uint", Ver: -1, NVer: -1, DynBits: true}, {Name: "F454", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S455", Fields: []*F{{Name: "F456", Kind: "uint", Bits: 16, NOpt: 256, Ver: -1, NVer: -1}, {Name: "F457", Kind: "array", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F458", Kind: "string", Opt: 256, Ver: -1, NVer: -1}}}}}}},
	{Name: "F459", Kind: "int", Bits: 8, NOpt: 2, Ver: -1, NVer: -1},
}

type S461 struct {
	F463 [4]uint32 `mp4:"2,size=26"`
	F462 int64     `mp4:"1,size=48"`
	F464 bool      `mp4:"3,size=16"`
}

var specS461 = []*F{
	{Name: "F462", Kind: "int", Bits: 48, Ver: -1, NVer: -1},
	{Name: "F463", Kind: "array", Bits: 26, Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 26, Ver: -1, NVer: -1}},
	{Name: "F464", Kind: "bool", Bits: 16, Ver: -1, NVer: -1},
}

type S447 struct {
	F448 S449  `mp4:"1"`
	F460 *S461 `mp4:"2"`
}

var specS447 = []*F{
	{Name: "F448", Kind: "struct", Ver: -1, NVer: -1, Sub: "S449", Fields: []*F{{Name: "F450", Kind: "string", Ver: -1, NVer: -1}, {Name: "F451", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S452", Fields: []*F{{Name: "F453Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1}, {Name: "F453", Kind: "uint", Ver: -1, NVer: -1, DynBits: true}, {Name: "F454", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S455", Fields: []*F{{Name: "F456", Kind: "uint", Bits: 16, NOpt: 256, Ver: -1, NVer: -1}, {Name: "F457", Kind: "array", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F458", Kind: "string", Opt: 256, Ver: -1, NVer: -1}}}}}}}, {Name: "F459", Kind: "int", Bits: 8, NOpt: 2, Ver: -1, NVer: -1}}},
	{Name: "F460", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S461", Fields: []*F{{Name: "F462", Kind: "int", Bits: 48, Ver: -1, NVer: -1}, {Name: "F463", Kind: "array", Bits: 26, Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 26, Ver: -1, NVer: -1}}, {Name: "F464", Kind: "bool", Bits: 16, Ver: -1, NVer: -1}}}},
}

type S466 struct {
	F468 uint8    `mp4:"2,size=7,nopt=0x100"`
	F469 []uint32 `mp4:"3,len=5,varint"`
	F467 uint8    `mp4:"1,size=8,opt=0x2"`
}

var specS466 = []*F{
	{Name: "F467", Kind: "uint", Bits: 8, Opt: 2, Ver: -1, NVer: -1},
	{Name: "F468", Kind: "uint", Bits: 7, NOpt: 256, Ver: -1, NVer: -1},
	{Name: "F469", Kind: "slice", Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
}

type S445 struct {
	F470 uint32 `mp4:"3,varint"`
	F465 S466   `mp4:"2"`
	F446 S447   `mp4:"1,opt=0x4"`
}

var specS445 = []*F{
	{Name: "F446", Kind: "struct", Opt: 4, Ver: -1, NVer: -1, Sub: "S447", Fields: []*F{{Name: "F448", Kind: "struct", Ver: -1, NVer: -1, Sub: "S449", Fields: []*F{{Name: "F450", Kind: "string", Ver: -1, NVer: -1}, {Name: "F451", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S452", Fields: []*F{{Name: "F453Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1}, {Name: "F453", Kind: "uint", Ver: -1, NVer: -1, DynBits: true}, {Name: "F454", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S455", Fields: []*F{{Name: "F456", Kind: "uint", Bits: 16, NOpt: 256, Ver: -1, NVer: -1}, {Name: "F457", Kind: "array", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F458", Kind: "string", Opt: 256, Ver: -1, NVer: -1}}}}}}}, {Name: "F459", Kind: "int", Bits: 8, NOpt: 2, Ver: -1, NVer: -1}}}, {Name: "F460", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S461", Fields: []*F{{Name: "F462", Kind: "int", Bits: 48, Ver: -1, NVer: -1}, {Name: "F463", Kind: "array", Bits: 26, Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 26, Ver: -1, NVer: -1}}, {Name: "F464", Kind: "bool", Bits: 16, Ver: -1, NVer: -1}}}}}},
	{Name: "F465", Kind: "struct", Ver: -1, NVer: -1, Sub: "S466", Fields: []*F{{Name: "F467", Kind: "uint", Bits: 8, Opt: 2, Ver: -1, NVer: -1}, {Name: "F468", Kind: "uint", Bits: 7, NOpt: 256, Ver: -1, NVer: -1}, {Name: "F469", Kind: "slice", Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}}},
	{Name: "F470", Kind: "varint", Ver: -1, NVer: -1},
}

type S473 struct {
	mp4.BaseCustomFieldObject
	F474   [4]uint8 `mp4:"1,size=8"`
	F475On bool     `mp4:"2,size=8"`
	F475   uint16   `mp4:"3,size=16,opt=dynamic"`
	F476   string   `mp4:"4,nver=2,string"`
}

var specS473 = []*F{
	{Name: "F474", Kind: "array", Bits: 8, Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F475On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F475", Kind: "uint", Bits: 16, HookBits: 13, Ver: -1, NVer: -1, OptDyn: true, Hook: "prefix"},
	{Name: "F476", Kind: "string", Ver: -1, NVer: 2},
}

func (b *S473) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS473, name, ctx)
}
func (b *S473) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS473, name, ctx)
}
func (b *S473) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS473, name, ctx)
}
func (b *S473) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS473, name, s, left, ctx)
}
func (b *S473) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS473, name, r, left, ctx)
}
func (b *S473) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS473, name, w, ctx)
}

type S481 struct {
	mp4.BaseCustomFieldObject
	F482 uint32 `mp4:"1,varint"`
	F483 int64  `mp4:"2,size=32"`
}

var specS481 = []*F{
	{Name: "F482", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F483", Kind: "int", Bits: 32, Ver: -1, NVer: -1},
}

func (b *S481) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS481, name, ctx)
}
func (b *S481) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS481, name, ctx)
}
func (b *S481) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS481, name, ctx)
}
func (b *S481) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS481, name, s, left, ctx)
}
func (b *S481) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS481, name, r, left, ctx)
}
func (b *S481) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS481, name, w, ctx)
}

type S493 struct {
	mp4.BaseCustomFieldObject
	F494   uint64 `mp4:"1,size=48"`
	F495On bool   `mp4:"2,size=8"`
	F495   uint32 `mp4:"3,size=24,opt=dynamic"`
	F496   uint32 `mp4:"4,varint,ver=0"`
}

var specS493 = []*F{
	{Name: "F494", Kind: "uint", Bits: 48, Ver: -1, NVer: -1},
	{Name: "F495On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F495", Kind: "uint", Bits: 24, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F496", Kind: "varint", Ver: 0, NVer: -1},
}

func (b *S493) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS493, name, ctx)
}
func (b *S493) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS493, name, ctx)
}
func (b *S493) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS493, name, ctx)
}
func (b *S493) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS493, name, s, left, ctx)
}
func (b *S493) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS493, name, r, left, ctx)
}
func (b *S493) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS493, name, w, ctx)
}

type S489 struct {
	mp4.BaseCustomFieldObject
	F490    bool    `mp4:"1,size=1"`
	F491Len uint16  `mp4:"2,size=16"`
	F491    []uint8 `mp4:"3,size=8,len=dynamic"`
	F492    *S493   `mp4:"4"`
}

var specS489 = []*F{
	{Name: "F490", Kind: "bool", Bits: 1, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F491Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F491", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F492", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S493", Fields: []*F{{Name: "F494", Kind: "uint", Bits: 48, Ver: -1, NVer: -1}, {Name: "F495On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F495", Kind: "uint", Bits: 24, Ver: -1, NVer: -1, OptDyn: true}, {Name: "F496", Kind: "varint", Ver: 0, NVer: -1}}}},
}

func (b *S489) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS489, name, ctx)
}
func (b *S489) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS489, name, ctx)
}
func (b *S489) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS489, name, ctx)
}
func (b *S489) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS489, name, s, left, ctx)
}
func (b *S489) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS489, name, r, left, ctx)
}
func (b *S489) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS489, name, w, ctx)
}

type S486 struct {
	F488 S489  `mp4:"2,nopt=0x100"`
	F487 int32 `mp4:"1,size=24,opt=0x1"`
}

var specS486 = []*F{
	{Name: "F487", Kind: "int", Bits: 24, Opt: 1, Ver: -1, NVer: -1},
	{Name: "F488", Kind: "struct", NOpt: 256, Ver: -1, NVer: -1, Sub: "S489", Fields: []*F{{Name: "F490", Kind: "bool", Bits: 1, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"}, {Name: "F491Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1}, {Name: "F491", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F492", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S493", Fields: []*F{{Name: "F494", Kind: "uint", Bits: 48, Ver: -1, NVer: -1}, {Name: "F495On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F495", Kind: "uint", Bits: 24, Ver: -1, NVer: -1, OptDyn: true}, {Name: "F496", Kind: "varint", Ver: 0, NVer: -1}}}}}},
}

type S499 struct {
	A499 uint8  `mp4:"1,size=3"`
	B499 int16  `mp4:"2,size=13"`
	C499 string `mp4:"3,string"`
}

var specS499 = []*F{
	{Name: "A499", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "B499", Kind: "int", Bits: 13, Ver: -1, NVer: -1},
	{Name: "C499", Kind: "string", Ver: -1, NVer: -1},
}

type S502 struct {
	mp4.BaseCustomFieldObject
	F503 uint16 `mp4:"1,size=16,hex"`
}

var specS502 = []*F{
	{Name: "F503", Kind: "uint", Bits: 16, HookBits: 10, Ver: -1, NVer: -1, Hook: "prefix"},
}

func (b *S502) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS502, name, ctx)
}
func (b *S502) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS502, name, ctx)
}
func (b *S502) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS502, name, ctx)
}
func (b *S502) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS502, name, s, left, ctx)
}
func (b *S502) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS502, name, r, left, ctx)
}
func (b *S502) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS502, name, w, ctx)
}

type S505 struct {
	F506 bool `mp4:"1,size=1"`
}

var specS505 = []*F{
	{Name: "F506", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
}

type S518 struct {
	F519 []uint32 `mp4:"1,len=6,varint"`
	F520 int16    `mp4:"2,size=16,dec"`
	F521 []string `mp4:"3,string,len=1"`
}

var specS518 = []*F{
	{Name: "F519", Kind: "slice", Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F520", Kind: "int", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F521", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
}

type S524 struct {
	F525 uint32 `mp4:"1,varint"`
	F526 bool   `mp4:"2,size=3"`
	F527 bool   `mp4:"3,size=1"`
}

var specS524 = []*F{
	{Name: "F525", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F526", Kind: "bool", Bits: 3, Ver: -1, NVer: -1},
	{Name: "F527", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
}

type S537 struct {
	F538 bool     `mp4:"1,size=7"`
	F539 []string `mp4:"2,len=2,string"`
}

var specS537 = []*F{
	{Name: "F538", Kind: "bool", Bits: 7, Ver: -1, NVer: -1},
	{Name: "F539", Kind: "slice", Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
}

type S546 struct {
	mp4.BaseCustomFieldObject
	F547 uint32 `mp4:"1,varint,nver=1"`
}

var specS546 = []*F{
	{Name: "F547", Kind: "varint", Ver: -1, NVer: 1},
}

func (b *S546) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS546, name, ctx)
}
func (b *S546) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS546, name, ctx)
}
func (b *S546) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS546, name, ctx)
}
func (b *S546) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS546, name, s, left, ctx)
}
func (b *S546) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS546, name, r, left, ctx)
}
func (b *S546) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS546, name, w, ctx)
}

type S553 struct {
	A553 uint16   `mp4:"1,size=8"`
	B553 []uint16 `mp4:"2,size=8"`
}

var specS553 = []*F{
	{Name: "A553", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "B553", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S557 struct {
	F558 uint32 `mp4:"1,size=32"`
}

var specS557 = []*F{
	{Name: "F558", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
}

type S569 struct {
	F571 int   `mp4:"2,size=48"`
	F570 int64 `mp4:"1,size=24"`
}

var specS569 = []*F{
	{Name: "F570", Kind: "int", Bits: 24, Ver: -1, NVer: -1},
	{Name: "F571", Kind: "int", Bits: 48, Ver: -1, NVer: -1},
}

type S578 struct {
	A578 uint16  `mp4:"1,size=16"`
	B578 []uint8 `mp4:"2,size=4,dec"`
}

var specS578 = []*F{
	{Name: "A578", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B578", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}},
}

type S575 struct {
	F576 uint32 `mp4:"1,size=32"`
	F577 S578   `mp4:"2,size=40"`
	F579 uint64 `mp4:"3,size=64,opt=1"`
}

var specS575 = []*F{
	{Name: "F576", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F577", Kind: "struct", Sized: 40, Ver: -1, NVer: -1, Sub: "S578", Fields: []*F{{Name: "A578", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B578", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}}}},
	{Name: "F579", Kind: "uint", Bits: 64, Opt: 1, Ver: -1, NVer: -1},
}

type S586 struct {
	A586 uint16  `mp4:"1,size=16"`
	B586 []uint8 `mp4:"2,size=8"`
}

var specS586 = []*F{
	{Name: "A586", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B586", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S591 struct {
	F592 uint64 `mp4:"1,nver=1,size=48"`
}

var specS591 = []*F{
	{Name: "F592", Kind: "uint", Bits: 48, Ver: -1, NVer: 1},
}

type S598 struct {
	B598 []uint8 `mp4:"2,size=4"`
	A598 uint16  `mp4:"1,size=4"`
}

var specS598 = []*F{
	{Name: "A598", Kind: "uint", Bits: 4, Ver: -1, NVer: -1},
	{Name: "B598", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}},
}

type S600 struct {
	A600 uint16  `mp4:"1,size=16"`
	B600 []uint8 `mp4:"2,size=8"`
}

var specS600 = []*F{
	{Name: "A600", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B600", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S626 struct {
	F627 uint64   `mp4:"1,nopt=0x4,size=60"`
	F628 []uint32 `mp4:"2,len=2,varint"`
}

var specS626 = []*F{
	{Name: "F627", Kind: "uint", Bits: 60, NOpt: 4, Ver: -1, NVer: -1},
	{Name: "F628", Kind: "slice", Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
}

type S630 struct {
	F632 uint64  `mp4:"2,size=64"`
	F631 []uint8 `mp4:"1,len=1,size=8,hex"`
}

var specS630 = []*F{
	{Name: "F631", Kind: "slice", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F632", Kind: "uint", Bits: 64, Ver: -1, NVer: -1},
}

type S624 struct {
	F633 int16  `mp4:"3,size=16,hex"`
	F629 []S630 `mp4:"2,len=1,nopt=0x4"`
	F625 []S626 `mp4:"1,len=6,ver=0"`
}

var specS624 = []*F{
	{Name: "F625", Kind: "slice", Len: 6, Ver: 0, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S626", Fields: []*F{{Name: "F627", Kind: "uint", Bits: 60, NOpt: 4, Ver: -1, NVer: -1}, {Name: "F628", Kind: "slice", Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}}}},
	{Name: "F629", Kind: "slice", Len: 1, NOpt: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S630", Fields: []*F{{Name: "F631", Kind: "slice", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F632", Kind: "uint", Bits: 64, Ver: -1, NVer: -1}}}},
	{Name: "F633", Kind: "int", Bits: 16, Ver: -1, NVer: -1},
}

type S639 struct {
	F640 int8   `mp4:"1,hex,size=6"`
	F641 string `mp4:"2,string"`
}

var specS639 = []*F{
	{Name: "F640", Kind: "int", Bits: 6, Ver: -1, NVer: -1},
	{Name: "F641", Kind: "string", Ver: -1, NVer: -1},
}

type S653 struct {
	F654 int32  `mp4:"1,size=26"`
	F655 uint16 `mp4:"2,size=16"`
}

var specS653 = []*F{
	{Name: "F654", Kind: "int", Bits: 26, Ver: -1, NVer: -1},
	{Name: "F655", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
}

type S651 struct {
	F657 bool   `mp4:"3,ver=2,size=16"`
	F656 bool   `mp4:"2,size=16"`
	F652 []S653 `mp4:"1,opt=0x1,len=0"`
}

var specS651 = []*F{
	{Name: "F652", Kind: "slice", Opt: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S653", Fields: []*F{{Name: "F654", Kind: "int", Bits: 26, Ver: -1, NVer: -1}, {Name: "F655", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}}}},
	{Name: "F656", Kind: "bool", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F657", Kind: "bool", Bits: 16, Ver: 2, NVer: -1},
}

type S648 struct {
	mp4.BaseCustomFieldObject
	F649 uint32 `mp4:"1,hex,ver=0,size=24"`
	F650 S651   `mp4:"2"`
	F658 int32  `mp4:"3,size=32"`
}

var specS648 = []*F{
	{Name: "F649", Kind: "uint", Bits: 24, Ver: 0, NVer: -1},
	{Name: "F650", Kind: "struct", Ver: -1, NVer: -1, Sub: "S651", Fields: []*F{{Name: "F652", Kind: "slice", Opt: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S653", Fields: []*F{{Name: "F654", Kind: "int", Bits: 26, Ver: -1, NVer: -1}, {Name: "F655", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}}}}, {Name: "F656", Kind: "bool", Bits: 16, Ver: -1, NVer: -1}, {Name: "F657", Kind: "bool", Bits: 16, Ver: 2, NVer: -1}}},
	{Name: "F658", Kind: "int", Bits: 32, Ver: -1, NVer: -1},
}

func (b *S648) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS648, name, ctx)
}
func (b *S648) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS648, name, ctx)
}
func (b *S648) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS648, name, ctx)
}
func (b *S648) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS648, name, s, left, ctx)
}
func (b *S648) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS648, name, r, left, ctx)
}
func (b *S648) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS648, name, w, ctx)
}

type S663 struct {
	A663 uint8  `mp4:"1,size=3"`
	B663 int16  `mp4:"2,size=13"`
	C663 string `mp4:"3,string"`
}

var specS663 = []*F{
	{Name: "A663", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "B663", Kind: "int", Bits: 13, Ver: -1, NVer: -1},
	{Name: "C663", Kind: "string", Ver: -1, NVer: -1},
}

type S674 struct {
	A674 uint16  `mp4:"1,size=12"`
	B674 []uint8 `mp4:"2,size=1"`
}

var specS674 = []*F{
	{Name: "A674", Kind: "uint", Bits: 12, Ver: -1, NVer: -1},
	{Name: "B674", Kind: "slice", Bits: 1, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

type S687 struct {
	F688 string  `mp4:"1,string"`
	F689 []uint8 `mp4:"2,len=1,size=8"`
}

var specS687 = []*F{
	{Name: "F688", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F689", Kind: "slice", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S695 struct {
	A695 uint16   `mp4:"1,size=8"`
	B695 []uint64 `mp4:"2,size=8"`
}

var specS695 = []*F{
	{Name: "A695", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "B695", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S698 struct {
	A698 uint8  `mp4:"1,size=3"`
	B698 int16  `mp4:"2,size=13"`
	C698 string `mp4:"3,string"`
}

var specS698 = []*F{
	{Name: "A698", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "B698", Kind: "int", Bits: 13, Ver: -1, NVer: -1},
	{Name: "C698", Kind: "string", Ver: -1, NVer: -1},
}

type S701 struct {
	F702 int    `mp4:"1,opt=2,size=48"`
	F703 bool   `mp4:"2,size=8"`
	F704 string `mp4:"3,opt=0x100,string"`
}

var specS701 = []*F{
	{Name: "F702", Kind: "int", Bits: 48, Opt: 2, Ver: -1, NVer: -1},
	{Name: "F703", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F704", Kind: "string", Opt: 256, Ver: -1, NVer: -1},
}

type S710 struct {
	F711 bool `mp4:"1,size=1"`
}

var specS710 = []*F{
	{Name: "F711", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
}

type S716 struct {
	F718 uint32 `mp4:"2,size=32,ver=0"`
	F717 uint   `mp4:"1,size=64,nver=2"`
}

var specS716 = []*F{
	{Name: "F717", Kind: "uint", Bits: 64, Ver: -1, NVer: 2},
	{Name: "F718", Kind: "uint", Bits: 32, Ver: 0, NVer: -1},
}

type S726 struct {
	F727 string `mp4:"1,string"`
	F729 uint64 `mp4:"3,size=41"`
	F728 uint64 `mp4:"2,size=48"`
}

var specS726 = []*F{
	{Name: "F727", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F728", Kind: "uint", Bits: 48, Ver: -1, NVer: -1},
	{Name: "F729", Kind: "uint", Bits: 41, Ver: -1, NVer: -1},
}

type S724 struct {
	F725 S726   `mp4:"1"`
	F730 uint64 `mp4:"2,size=48"`
	F731 uint16 `mp4:"3,size=16"`
}

var specS724 = []*F{
	{Name: "F725", Kind: "struct", Ver: -1, NVer: -1, Sub: "S726", Fields: []*F{{Name: "F727", Kind: "string", Ver: -1, NVer: -1}, {Name: "F728", Kind: "uint", Bits: 48, Ver: -1, NVer: -1}, {Name: "F729", Kind: "uint", Bits: 41, Ver: -1, NVer: -1}}},
	{Name: "F730", Kind: "uint", Bits: 48, Ver: -1, NVer: -1},
	{Name: "F731", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
}

type S734 struct {
	mp4.BaseCustomFieldObject
	F735 [3]Octet `mp4:"1,size=8"`
	F736 uint64   `mp4:"2,size=16"`
}

var specS734 = []*F{
	{Name: "F735", Kind: "array", Bits: 8, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F736", Kind: "uint", Bits: 16, HookBits: 13, Ver: -1, NVer: -1, Hook: "prefix"},
}

func (b *S734) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS734, name, ctx)
}
func (b *S734) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS734, name, ctx)
}
func (b *S734) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS734, name, ctx)
}
func (b *S734) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS734, name, s, left, ctx)
}
func (b *S734) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS734, name, r, left, ctx)
}
func (b *S734) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS734, name, w, ctx)
}

type S742 struct {
	A742 uint8  `mp4:"1,size=3"`
	B742 int16  `mp4:"2,dec,size=13"`
	C742 string `mp4:"3,string"`
}

var specS742 = []*F{
	{Name: "A742", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "B742", Kind: "int", Bits: 13, Ver: -1, NVer: -1},
	{Name: "C742", Kind: "string", Ver: -1, NVer: -1},
}

type S748 struct {
	A748 uint16  `mp4:"1,size=4"`
	B748 []uint8 `mp4:"2,size=2"`
}

var specS748 = []*F{
	{Name: "A748", Kind: "uint", Bits: 4, Ver: -1, NVer: -1},
	{Name: "B748", Kind: "slice", Bits: 2, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}},
}

type S745 struct {
	F746 uint16 `mp4:"1,size=16"`
	F747 S748   `mp4:"2,size=24"`
	F749 uint64 `mp4:"3,size=32"`
}

var specS745 = []*F{
	{Name: "F746", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F747", Kind: "struct", Sized: 24, Ver: -1, NVer: -1, Sub: "S748", Fields: []*F{{Name: "A748", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}, {Name: "B748", Kind: "slice", Bits: 2, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}}}},
	{Name: "F749", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
}

type S756 struct {
	F757 int64 `mp4:"1,size=24"`
	F758 uint  `mp4:"2,size=16"`
}

var specS756 = []*F{
	{Name: "F757", Kind: "int", Bits: 24, Ver: -1, NVer: -1},
	{Name: "F758", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
}

type S754 struct {
	F755 *S756    `mp4:"1"`
	F759 []uint32 `mp4:"2,len=1,varint"`
	F760 uint8    `mp4:"3,size=6"`
}

var specS754 = []*F{
	{Name: "F755", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S756", Fields: []*F{{Name: "F757", Kind: "int", Bits: 24, Ver: -1, NVer: -1}, {Name: "F758", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}}}},
	{Name: "F759", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F760", Kind: "uint", Bits: 6, Ver: -1, NVer: -1},
}

type S752 struct {
	F753 *S754    `mp4:"1"`
	F761 []uint64 `mp4:"2,size=24,len=0"`
}

var specS752 = []*F{
	{Name: "F753", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S754", Fields: []*F{{Name: "F755", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S756", Fields: []*F{{Name: "F757", Kind: "int", Bits: 24, Ver: -1, NVer: -1}, {Name: "F758", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}}}}, {Name: "F759", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}, {Name: "F760", Kind: "uint", Bits: 6, Ver: -1, NVer: -1}}}},
	{Name: "F761", Kind: "slice", Bits: 24, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 24, Ver: -1, NVer: -1}},
}

type S764 struct {
	F765 string `mp4:"1,string"`
}

var specS764 = []*F{
	{Name: "F765", Kind: "string", Ver: -1, NVer: -1},
}

type S768 struct {
	A768 uint8  `mp4:"1,size=3"`
	C768 string `mp4:"3,string"`
	B768 int16  `mp4:"2,size=13"`
}

var specS768 = []*F{
	{Name: "A768", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "B768", Kind: "int", Bits: 13, Ver: -1, NVer: -1},
	{Name: "C768", Kind: "string", Ver: -1, NVer: -1},
}

type S775 struct {
	F776 uint32 `mp4:"1,size=1"`
	F777 uint32 `mp4:"2,size=24"`
}

var specS775 = []*F{
	{Name: "F776", Kind: "uint", Bits: 1, Ver: -1, NVer: -1},
	{Name: "F777", Kind: "uint", Bits: 24, Ver: -1, NVer: -1},
}

type S773 struct {
	F778 []uint16 `mp4:"2,len=5,size=8"`
	F774 []S775   `mp4:"1,len=4"`
	F779 uint64   `mp4:"3,size=32"`
}

var specS773 = []*F{
	{Name: "F774", Kind: "slice", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S775", Fields: []*F{{Name: "F776", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}, {Name: "F777", Kind: "uint", Bits: 24, Ver: -1, NVer: -1}}}},
	{Name: "F778", Kind: "slice", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F779", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
}

type S771 struct {
	mp4.BaseCustomFieldObject
	F780 int16 `mp4:"2,size=16"`
	F772 *S773 `mp4:"1"`
}

var specS771 = []*F{
	{Name: "F772", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S773", Fields: []*F{{Name: "F774", Kind: "slice", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S775", Fields: []*F{{Name: "F776", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}, {Name: "F777", Kind: "uint", Bits: 24, Ver: -1, NVer: -1}}}}, {Name: "F778", Kind: "slice", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F779", Kind: "uint", Bits: 32, Ver: -1, NVer: -1}}}},
	{Name: "F780", Kind: "int", Bits: 16, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"},
}

func (b *S771) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS771, name, ctx)
}
func (b *S771) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS771, name, ctx)
}
func (b *S771) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS771, name, ctx)
}
func (b *S771) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS771, name, s, left, ctx)
}
func (b *S771) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS771, name, r, left, ctx)
}
func (b *S771) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS771, name, w, ctx)
}

type S795 struct {
	F796 int16 `mp4:"1,size=3"`
}

var specS795 = []*F{
	{Name: "F796", Kind: "int", Bits: 3, Ver: -1, NVer: -1},
}

type S792 struct {
	F797 string `mp4:"3,string,nopt=0x4"`
	F793 int32  `mp4:"1,size=24"`
	F794 *S795  `mp4:"2"`
}

var specS792 = []*F{
	{Name: "F793", Kind: "int", Bits: 24, Ver: -1, NVer: -1},
	{Name: "F794", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S795", Fields: []*F{{Name: "F796", Kind: "int", Bits: 3, Ver: -1, NVer: -1}}}},
	{Name: "F797", Kind: "string", NOpt: 4, Ver: -1, NVer: -1},
}

type S790 struct {
	F791 [3]*S792 `mp4:"1"`
}

var specS790 = []*F{
	{Name: "F791", Kind: "array", Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S792", Fields: []*F{{Name: "F793", Kind: "int", Bits: 24, Ver: -1, NVer: -1}, {Name: "F794", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S795", Fields: []*F{{Name: "F796", Kind: "int", Bits: 3, Ver: -1, NVer: -1}}}}, {Name: "F797", Kind: "string", NOpt: 4, Ver: -1, NVer: -1}}}}},
}

type S801 struct {
	F802 int64 `mp4:"1,size=21"`
}

var specS801 = []*F{
	{Name: "F802", Kind: "int", Bits: 21, Ver: -1, NVer: -1},
}

type S805 struct {
	F806 uint `mp4:"1,opt=2,size=64"`
}

var specS805 = []*F{
	{Name: "F806", Kind: "uint", Bits: 64, Opt: 2, Ver: -1, NVer: -1},
}

type S824 struct {
	B824 []uint8 `mp4:"2,size=8"`
	A824 uint16  `mp4:"1,size=16"`
}

var specS824 = []*F{
	{Name: "A824", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B824", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S833 struct {
	mp4.BaseCustomFieldObject
	F836     int16   `mp4:"5,size=16,nopt=0x4"`
	F834     uint8   `mp4:"2,size=dynamic"`
	F835Len  uint16  `mp4:"3,size=8"`
	F835     []Octet `mp4:"4,len=dynamic,size=8"`
	F834Bits uint8   `mp4:"1,size=8"`
}

var specS833 = []*F{
	{Name: "F834Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1},
	{Name: "F834", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F835Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F835", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F836", Kind: "int", Bits: 16, NOpt: 4, Ver: -1, NVer: -1},
}

func (b *S833) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS833, name, ctx)
}
func (b *S833) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS833, name, ctx)
}
func (b *S833) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS833, name, ctx)
}
func (b *S833) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS833, name, s, left, ctx)
}
func (b *S833) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS833, name, r, left, ctx)
}
func (b *S833) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS833, name, w, ctx)
}

type S829 struct {
	F830 bool   `mp4:"1,size=6"`
	F831 string `mp4:"2,string"`
	F832 *S833  `mp4:"3"`
}

var specS829 = []*F{
	{Name: "F830", Kind: "bool", Bits: 6, Ver: -1, NVer: -1},
	{Name: "F831", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F832", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S833", Fields: []*F{{Name: "F834Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1}, {Name: "F834", Kind: "uint", Ver: -1, NVer: -1, DynBits: true}, {Name: "F835Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1}, {Name: "F835", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F836", Kind: "int", Bits: 16, NOpt: 4, Ver: -1, NVer: -1}}}},
}

type S849 struct {
	F850 int `mp4:"1,size=51"`
}

var specS849 = []*F{
	{Name: "F850", Kind: "int", Bits: 51, Ver: -1, NVer: -1},
}

type S854 struct {
	F855 [4]Octet `mp4:"1,nver=0,size=8"`
}

var specS854 = []*F{
	{Name: "F855", Kind: "array", Bits: 8, Len: 4, Ver: -1, NVer: 0, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S868 struct {
	A868 uint8  `mp4:"1,size=3"`
	B868 int16  `mp4:"2,size=13"`
	C868 string `mp4:"3,string"`
}

var specS868 = []*F{
	{Name: "A868", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "B868", Kind: "int", Bits: 13, Ver: -1, NVer: -1},
	{Name: "C868", Kind: "string", Ver: -1, NVer: -1},
}

type S876 struct {
	A876 uint16  `mp4:"1,size=4"`
	B876 []uint8 `mp4:"2,size=1"`
}

var specS876 = []*F{
	{Name: "A876", Kind: "uint", Bits: 4, Ver: -1, NVer: -1},
	{Name: "B876", Kind: "slice", Bits: 1, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

type S879 struct {
	A879 uint16  `mp4:"1,size=16"`
	B879 []uint8 `mp4:"2,size=8"`
}

var specS879 = []*F{
	{Name: "A879", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B879", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S884 struct {
	F885 uint32 `mp4:"1,varint"`
	F886 uint64 `mp4:"2,size=48"`
}

var specS884 = []*F{
	{Name: "F885", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F886", Kind: "uint", Bits: 48, Ver: -1, NVer: -1},
}

type S888 struct {
	A888 uint8  `mp4:"1,size=3"`
	B888 int16  `mp4:"2,size=13"`
	C888 string `mp4:"3,string"`
}

var specS888 = []*F{
	{Name: "A888", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "B888", Kind: "int", Bits: 13, Ver: -1, NVer: -1},
	{Name: "C888", Kind: "string", Ver: -1, NVer: -1},
}

type S891 struct {
	mp4.BaseCustomFieldObject
	F892 []uint32 `mp4:"1,len=3,size=9"`
}

var specS891 = []*F{
	{Name: "F892", Kind: "slice", Bits: 9, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 9, Ver: -1, NVer: -1}},
}

func (b *S891) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS891, name, ctx)
}
func (b *S891) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS891, name, ctx)
}
func (b *S891) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS891, name, ctx)
}
func (b *S891) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS891, name, s, left, ctx)
}
func (b *S891) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS891, name, r, left, ctx)
}
func (b *S891) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS891, name, w, ctx)
}

type S896 struct {
	F897 bool   `mp4:"1,size=1"`
	F898 uint32 `mp4:"2,varint,ver=2"`
	F899 uint64 `mp4:"3,opt=0x100,size=19"`
}

var specS896 = []*F{
	{Name: "F897", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
	{Name: "F898", Kind: "varint", Ver: 2, NVer: -1},
	{Name: "F899", Kind: "uint", Bits: 19, Opt: 256, Ver: -1, NVer: -1},
}

type S910 struct {
	F911 []uint8 `mp4:"1,len=4,size=8,opt=0x4"`
}

var specS910 = []*F{
	{Name: "F911", Kind: "slice", Bits: 8, Len: 4, Opt: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S916 struct {
	mp4.BaseCustomFieldObject
	F919On  bool      `mp4:"4,size=8"`
	F917Len uint16    `mp4:"1,size=8"`
	F918    [4]uint32 `mp4:"3,varint"`
	F919    string    `mp4:"5,string,opt=dynamic"`
	F917    []uint8   `mp4:"2,len=dynamic,size=8"`
}

var specS916 = []*F{
	{Name: "F917Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F917", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F918", Kind: "array", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F919On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F919", Kind: "string", Ver: -1, NVer: -1, OptDyn: true},
}

func (b *S916) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS916, name, ctx)
}
func (b *S916) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS916, name, ctx)
}
func (b *S916) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS916, name, ctx)
}
func (b *S916) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS916, name, s, left, ctx)
}
func (b *S916) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS916, name, r, left, ctx)
}
func (b *S916) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS916, name, w, ctx)
}

type S921 struct {
	F922 uint32 `mp4:"1,varint"`
}

var specS921 = []*F{
	{Name: "F922", Kind: "varint", Ver: -1, NVer: -1},
}

type S927 struct {
	A927 uint8  `mp4:"1,size=3"`
	B927 int16  `mp4:"2,size=13"`
	C927 string `mp4:"3,string"`
}

var specS927 = []*F{
	{Name: "A927", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "B927", Kind: "int", Bits: 13, Ver: -1, NVer: -1},
	{Name: "C927", Kind: "string", Ver: -1, NVer: -1},
}

type S937 struct {
	mp4.BaseCustomFieldObject
	F938 int16 `mp4:"1,size=16"`
}

var specS937 = []*F{
	{Name: "F938", Kind: "int", Bits: 16, Ver: -1, NVer: -1},
}

func (b *S937) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS937, name, ctx)
}
func (b *S937) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS937, name, ctx)
}
func (b *S937) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS937, name, ctx)
}
func (b *S937) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS937, name, s, left, ctx)
}
func (b *S937) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS937, name, r, left, ctx)
}
func (b *S937) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS937, name, w, ctx)
}

type S935 struct {
	mp4.BaseCustomFieldObject
	F936 *S937 `mp4:"1"`
}

var specS935 = []*F{
	{Name: "F936", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S937", Fields: []*F{{Name: "F938", Kind: "int", Bits: 16, Ver: -1, NVer: -1}}}},
}

func (b *S935) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS935, name, ctx)
}
func (b *S935) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS935, name, ctx)
}
func (b *S935) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS935, name, ctx)
}
func (b *S935) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS935, name, s, left, ctx)
}
func (b *S935) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS935, name, r, left, ctx)
}
func (b *S935) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS935, name, w, ctx)
}

type S949 struct {
	A949 uint16  `mp4:"1,size=12"`
	B949 []uint8 `mp4:"2,size=4"`
}

var specS949 = []*F{
	{Name: "A949", Kind: "uint", Bits: 12, Ver: -1, NVer: -1},
	{Name: "B949", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}},
}

type S954 struct {
	mp4.BaseCustomFieldObject
	F955     int64 `mp4:"1,size=32"`
	F956Bits uint8 `mp4:"2,size=8"`
	F956     int32 `mp4:"3,size=dynamic"`
}

var specS954 = []*F{
	{Name: "F955", Kind: "int", Bits: 32, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F956Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F956", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
}

func (b *S954) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS954, name, ctx)
}
func (b *S954) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS954, name, ctx)
}
func (b *S954) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS954, name, ctx)
}
func (b *S954) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS954, name, s, left, ctx)
}
func (b *S954) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS954, name, r, left, ctx)
}
func (b *S954) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS954, name, w, ctx)
}

type S969 struct {
	mp4.BaseCustomFieldObject
	F970 bool `mp4:"1,size=1"`
}

var specS969 = []*F{
	{Name: "F970", Kind: "bool", Bits: 1, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
}

func (b *S969) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS969, name, ctx)
}
func (b *S969) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS969, name, ctx)
}
func (b *S969) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS969, name, ctx)
}
func (b *S969) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS969, name, s, left, ctx)
}
func (b *S969) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS969, name, r, left, ctx)
}
func (b *S969) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS969, name, w, ctx)
}

type S966 struct {
	F967 uint16 `mp4:"1,size=16"`
	F968 *S969  `mp4:"2"`
}

var specS966 = []*F{
	{Name: "F967", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F968", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S969", Fields: []*F{{Name: "F970", Kind: "bool", Bits: 1, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"}}}},
}

type S962 struct {
	F963 []uint8 `mp4:"1,size=8,len=6"`
	F964 uint32  `mp4:"2,size=32,hex"`
	F965 *S966   `mp4:"3"`
}

var specS962 = []*F{
	{Name: "F963", Kind: "slice", Bits: 8, Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F964", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F965", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S966", Fields: []*F{{Name: "F967", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "F968", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S969", Fields: []*F{{Name: "F970", Kind: "bool", Bits: 1, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"}}}}}}},
}

type S982 struct {
	F983 int64    `mp4:"1,nver=1,size=57"`
	F984 [5]uint8 `mp4:"2,size=8"`
	F985 uint32   `mp4:"3,size=27"`
}

var specS982 = []*F{
	{Name: "F983", Kind: "int", Bits: 57, Ver: -1, NVer: 1},
	{Name: "F984", Kind: "array", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F985", Kind: "uint", Bits: 27, Ver: -1, NVer: -1},
}

type S980 struct {
	mp4.BaseCustomFieldObject
	F986   string `mp4:"3,string"`
	F981On bool   `mp4:"1,size=8"`
	F981   S982   `mp4:"2,opt=dynamic"`
	F987   uint32 `mp4:"4,nver=1,varint"`
}

var specS980 = []*F{
	{Name: "F981On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F981", Kind: "struct", Ver: -1, NVer: -1, OptDyn: true, Sub: "S982", Fields: []*F{{Name: "F983", Kind: "int", Bits: 57, Ver: -1, NVer: 1}, {Name: "F984", Kind: "array", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F985", Kind: "uint", Bits: 27, Ver: -1, NVer: -1}}},
	{Name: "F986", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F987", Kind: "varint", HookBits: 16, Ver: -1, NVer: 1, Hook: "prefix"},
}

func (b *S980) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS980, name, ctx)
}
func (b *S980) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS980, name, ctx)
}
func (b *S980) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS980, name, ctx)
}
func (b *S980) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS980, name, s, left, ctx)
}
func (b *S980) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS980, name, r, left, ctx)
}
func (b *S980) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS980, name, w, ctx)
}

type S977 struct {
	mp4.BaseCustomFieldObject
	F978   uint32 `mp4:"1,size=32"`
	F979On bool   `mp4:"2,size=8"`
	F979   S980   `mp4:"3,opt=dynamic"`
	F988   uint32 `mp4:"4,size=11"`
}

var specS977 = []*F{
	{Name: "F978", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F979On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F979", Kind: "struct", Ver: -1, NVer: -1, OptDyn: true, Sub: "S980", Fields: []*F{{Name: "F981On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F981", Kind: "struct", Ver: -1, NVer: -1, OptDyn: true, Sub: "S982", Fields: []*F{{Name: "F983", Kind: "int", Bits: 57, Ver: -1, NVer: 1}, {Name: "F984", Kind: "array", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F985", Kind: "uint", Bits: 27, Ver: -1, NVer: -1}}}, {Name: "F986", Kind: "string", Ver: -1, NVer: -1}, {Name: "F987", Kind: "varint", HookBits: 16, Ver: -1, NVer: 1, Hook: "prefix"}}},
	{Name: "F988", Kind: "uint", Bits: 11, Ver: -1, NVer: -1},
}

func (b *S977) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS977, name, ctx)
}
func (b *S977) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS977, name, ctx)
}
func (b *S977) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS977, name, ctx)
}
func (b *S977) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS977, name, s, left, ctx)
}
func (b *S977) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS977, name, r, left, ctx)
}
func (b *S977) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS977, name, w, ctx)
}

type S1001 struct {
	A1001 uint16  `mp4:"1,size=4"`
	B1001 []uint8 `mp4:"2,size=1"`
}

var specS1001 = []*F{
	{Name: "A1001", Kind: "uint", Bits: 4, Ver: -1, NVer: -1},
	{Name: "B1001", Kind: "slice", Bits: 1, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

type S1003 struct {
	F1004 [3]uint8 `mp4:"1,size=8,nver=1"`
	F1005 []uint8  `mp4:"2,size=8,len=2"`
	F1006 []uint8  `mp4:"3,nopt=0x4,size=8,len=1"`
}

var specS1003 = []*F{
	{Name: "F1004", Kind: "array", Bits: 8, Len: 3, Ver: -1, NVer: 1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1005", Kind: "slice", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1006", Kind: "slice", Bits: 8, Len: 1, NOpt: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S1011 struct {
	B1011 []uint8 `mp4:"2,size=2"`
	A1011 uint16  `mp4:"1,size=8"`
}

var specS1011 = []*F{
	{Name: "A1011", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "B1011", Kind: "slice", Bits: 2, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}},
}

type S1014 struct {
	A1014 uint16  `mp4:"1,size=16"`
	B1014 []uint8 `mp4:"2,size=8"`
}

var specS1014 = []*F{
	{Name: "A1014", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B1014", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S1020 struct {
	mp4.BaseCustomFieldObject
	F1021 [4]uint8 `mp4:"1,size=8"`
}

var specS1020 = []*F{
	{Name: "F1021", Kind: "array", Bits: 8, Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *S1020) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS1020, name, ctx)
}
func (b *S1020) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS1020, name, ctx)
}
func (b *S1020) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS1020, name, ctx)
}
func (b *S1020) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS1020, name, s, left, ctx)
}
func (b *S1020) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS1020, name, r, left, ctx)
}
func (b *S1020) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS1020, name, w, ctx)
}

type S1024 struct {
	A1024 uint8  `mp4:"1,size=3"`
	B1024 int16  `mp4:"2,size=13"`
	C1024 string `mp4:"3,string"`
}

var specS1024 = []*F{
	{Name: "A1024", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "B1024", Kind: "int", Bits: 13, Ver: -1, NVer: -1},
	{Name: "C1024", Kind: "string", Ver: -1, NVer: -1},
}

type S1029 struct {
	F1030 []uint8 `mp4:"1,opt=2,len=4,size=8"`
	F1031 uint32  `mp4:"2,varint"`
}

var specS1029 = []*F{
	{Name: "F1030", Kind: "slice", Bits: 8, Len: 4, Opt: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1031", Kind: "varint", Ver: -1, NVer: -1},
}

type S1061 struct {
	F1062 []Octet `mp4:"1,len=0,size=8"`
}

var specS1061 = []*F{
	{Name: "F1062", Kind: "slice", Bits: 8, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S1058 struct {
	mp4.BaseCustomFieldObject
	F1059 uint32 `mp4:"1,size=24,dec"`
	F1060 *S1061 `mp4:"2"`
}

var specS1058 = []*F{
	{Name: "F1059", Kind: "uint", Bits: 24, Ver: -1, NVer: -1},
	{Name: "F1060", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1061", Fields: []*F{{Name: "F1062", Kind: "slice", Bits: 8, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
}

func (b *S1058) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS1058, name, ctx)
}
func (b *S1058) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS1058, name, ctx)
}
func (b *S1058) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS1058, name, ctx)
}
func (b *S1058) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS1058, name, s, left, ctx)
}
func (b *S1058) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS1058, name, r, left, ctx)
}
func (b *S1058) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS1058, name, w, ctx)
}

type S1067 struct {
	mp4.BaseCustomFieldObject
	F1068 [4]uint8 `mp4:"1,size=8"`
	F1069 string   `mp4:"2,string"`
	F1070 int32    `mp4:"3,size=24"`
}

var specS1067 = []*F{
	{Name: "F1068", Kind: "array", Bits: 8, Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1069", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F1070", Kind: "int", Bits: 24, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
}

func (b *S1067) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS1067, name, ctx)
}
func (b *S1067) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS1067, name, ctx)
}
func (b *S1067) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS1067, name, ctx)
}
func (b *S1067) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS1067, name, s, left, ctx)
}
func (b *S1067) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS1067, name, r, left, ctx)
}
func (b *S1067) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS1067, name, w, ctx)
}

type S1064 struct {
	F1066 [5]S1067 `mp4:"2,nver=2"`
	F1065 bool     `mp4:"1,size=32"`
}

var specS1064 = []*F{
	{Name: "F1065", Kind: "bool", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F1066", Kind: "array", Len: 5, Ver: -1, NVer: 2, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1067", Fields: []*F{{Name: "F1068", Kind: "array", Bits: 8, Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1069", Kind: "string", Ver: -1, NVer: -1}, {Name: "F1070", Kind: "int", Bits: 24, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"}}}},
}

type S1056 struct {
	F1063 S1064  `mp4:"2"`
	F1057 *S1058 `mp4:"1"`
}

var specS1056 = []*F{
	{Name: "F1057", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1058", Fields: []*F{{Name: "F1059", Kind: "uint", Bits: 24, Ver: -1, NVer: -1}, {Name: "F1060", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1061", Fields: []*F{{Name: "F1062", Kind: "slice", Bits: 8, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}}}}},
	{Name: "F1063", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1064", Fields: []*F{{Name: "F1065", Kind: "bool", Bits: 32, Ver: -1, NVer: -1}, {Name: "F1066", Kind: "array", Len: 5, Ver: -1, NVer: 2, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1067", Fields: []*F{{Name: "F1068", Kind: "array", Bits: 8, Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1069", Kind: "string", Ver: -1, NVer: -1}, {Name: "F1070", Kind: "int", Bits: 24, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"}}}}}},
}

type S1075 struct {
	F1076 [1]uint8 `mp4:"1,size=8"`
}

var specS1075 = []*F{
	{Name: "F1076", Kind: "array", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S1072 struct {
	F1073 string  `mp4:"1,ver=2,string"`
	F1077 []uint8 `mp4:"3,size=8,len=2"`
	F1074 *S1075  `mp4:"2"`
}

var specS1072 = []*F{
	{Name: "F1073", Kind: "string", Ver: 2, NVer: -1},
	{Name: "F1074", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1075", Fields: []*F{{Name: "F1076", Kind: "array", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
	{Name: "F1077", Kind: "slice", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S1079 struct {
	mp4.BaseCustomFieldObject
	F1080 bool `mp4:"1,size=32"`
	F1081 bool `mp4:"2,size=16"`
}

var specS1079 = []*F{
	{Name: "F1080", Kind: "bool", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F1081", Kind: "bool", Bits: 16, Ver: -1, NVer: -1},
}

func (b *S1079) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS1079, name, ctx)
}
func (b *S1079) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS1079, name, ctx)
}
func (b *S1079) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS1079, name, ctx)
}
func (b *S1079) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS1079, name, s, left, ctx)
}
func (b *S1079) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS1079, name, r, left, ctx)
}
func (b *S1079) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS1079, name, w, ctx)
}

type S1097 struct {
	B1097 []uint16 `mp4:"2,size=4"`
	A1097 uint16   `mp4:"1,size=8"`
}

var specS1097 = []*F{
	{Name: "A1097", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "B1097", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}},
}

type S1103 struct {
	F1104 uint32 `mp4:"1,varint"`
	F1105 int64  `mp4:"2,size=64"`
}

var specS1103 = []*F{
	{Name: "F1104", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F1105", Kind: "int", Bits: 64, Ver: -1, NVer: -1},
}

type S1101 struct {
	F1102 *S1103 `mp4:"1"`
}

var specS1101 = []*F{
	{Name: "F1102", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1103", Fields: []*F{{Name: "F1104", Kind: "varint", Ver: -1, NVer: -1}, {Name: "F1105", Kind: "int", Bits: 64, Ver: -1, NVer: -1}}}},
}

type S1099 struct {
	F1100 []S1101 `mp4:"1,len=2"`
}

var specS1099 = []*F{
	{Name: "F1100", Kind: "slice", Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1101", Fields: []*F{{Name: "F1102", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1103", Fields: []*F{{Name: "F1104", Kind: "varint", Ver: -1, NVer: -1}, {Name: "F1105", Kind: "int", Bits: 64, Ver: -1, NVer: -1}}}}}}},
}

type S1112 struct {
	B1112 []uint64 `mp4:"2,size=2"`
	A1112 uint16   `mp4:"1,size=16"`
}

var specS1112 = []*F{
	{Name: "A1112", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B1112", Kind: "slice", Bits: 2, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}},
}

type S1117 struct {
	F1118 [5]uint8 `mp4:"1,nver=0,size=8"`
	F1119 uint32   `mp4:"2,varint"`
}

var specS1117 = []*F{
	{Name: "F1118", Kind: "array", Bits: 8, Len: 5, Ver: -1, NVer: 0, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1119", Kind: "varint", Ver: -1, NVer: -1},
}

type S1115 struct {
	mp4.BaseCustomFieldObject
	F1116 S1117 `mp4:"1,nopt=0x4"`
}

var specS1115 = []*F{
	{Name: "F1116", Kind: "struct", NOpt: 4, Ver: -1, NVer: -1, Sub: "S1117", Fields: []*F{{Name: "F1118", Kind: "array", Bits: 8, Len: 5, Ver: -1, NVer: 0, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1119", Kind: "varint", Ver: -1, NVer: -1}}},
}

func (b *S1115) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS1115, name, ctx)
}
func (b *S1115) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS1115, name, ctx)
}
func (b *S1115) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS1115, name, ctx)
}
func (b *S1115) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS1115, name, s, left, ctx)
}
func (b *S1115) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS1115, name, r, left, ctx)
}
func (b *S1115) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS1115, name, w, ctx)
}

type S1125 struct {
	A1125 uint16  `mp4:"1,size=16"`
	B1125 []uint8 `mp4:"2,size=1"`
}

var specS1125 = []*F{
	{Name: "A1125", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B1125", Kind: "slice", Bits: 1, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

type S1134 struct {
	F1135 uint16 `mp4:"1,size=16"`
	F1136 uint32 `mp4:"2,size=27"`
}

var specS1134 = []*F{
	{Name: "F1135", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F1136", Kind: "uint", Bits: 27, Ver: -1, NVer: -1},
}

type S1138 struct {
	C1138 string `mp4:"3,string"`
	B1138 int16  `mp4:"2,size=13"`
	A1138 uint8  `mp4:"1,size=3"`
}

var specS1138 = []*F{
	{Name: "A1138", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "B1138", Kind: "int", Bits: 13, Ver: -1, NVer: -1},
	{Name: "C1138", Kind: "string", Ver: -1, NVer: -1},
}

type S1143 struct {
	A1143 uint16  `mp4:"1,size=16"`
	B1143 []uint8 `mp4:"2,size=8"`
}

var specS1143 = []*F{
	{Name: "A1143", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B1143", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S1152 struct {
	A1152 uint16   `mp4:"1,size=16"`
	B1152 []uint16 `mp4:"2,size=16"`
}

var specS1152 = []*F{
	{Name: "A1152", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B1152", Kind: "slice", Bits: 16, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}},
}

type S1160 struct {
	A1160 uint16   `mp4:"1,hex,size=16"`
	B1160 []uint16 `mp4:"2,size=2"`
}

var specS1160 = []*F{
	{Name: "A1160", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B1160", Kind: "slice", Bits: 2, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}},
}

type S1167 struct {
	mp4.BaseCustomFieldObject
	F1168Len uint16  `mp4:"1,size=8"`
	F1168    []uint8 `mp4:"2,len=dynamic,size=8"`
}

var specS1167 = []*F{
	{Name: "F1168Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1168", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *S1167) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS1167, name, ctx)
}
func (b *S1167) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS1167, name, ctx)
}
func (b *S1167) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS1167, name, ctx)
}
func (b *S1167) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS1167, name, s, left, ctx)
}
func (b *S1167) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS1167, name, r, left, ctx)
}
func (b *S1167) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS1167, name, w, ctx)
}

type S1165 struct {
	F1166 S1167 `mp4:"1,opt=0x100"`
	F1169 bool  `mp4:"2,ver=1,size=1"`
}

var specS1165 = []*F{
	{Name: "F1166", Kind: "struct", Opt: 256, Ver: -1, NVer: -1, Sub: "S1167", Fields: []*F{{Name: "F1168Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1}, {Name: "F1168", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}},
	{Name: "F1169", Kind: "bool", Bits: 1, Ver: 1, NVer: -1},
}

type S1188 struct {
	mp4.BaseCustomFieldObject
	F1189Bits uint8  `mp4:"1,size=8"`
	F1189     uint32 `mp4:"2,size=dynamic"`
}

var specS1188 = []*F{
	{Name: "F1189Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F1189", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
}

func (b *S1188) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS1188, name, ctx)
}
func (b *S1188) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS1188, name, ctx)
}
func (b *S1188) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS1188, name, ctx)
}
func (b *S1188) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS1188, name, s, left, ctx)
}
func (b *S1188) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS1188, name, r, left, ctx)
}
func (b *S1188) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS1188, name, w, ctx)
}

type S1201 struct {
	F1202 uint16 `mp4:"1,size=15,ver=2"`
	F1203 uint64 `mp4:"2,hex,size=64"`
}

var specS1201 = []*F{
	{Name: "F1202", Kind: "uint", Bits: 15, Ver: 2, NVer: -1},
	{Name: "F1203", Kind: "uint", Bits: 64, Ver: -1, NVer: -1},
}

type S1205 struct {
	F1206 int32 `mp4:"1,size=6"`
	F1207 int64 `mp4:"2,nopt=0x2,size=64"`
	F1208 int64 `mp4:"3,ver=2,size=8"`
}

var specS1205 = []*F{
	{Name: "F1206", Kind: "int", Bits: 6, Ver: -1, NVer: -1},
	{Name: "F1207", Kind: "int", Bits: 64, NOpt: 2, Ver: -1, NVer: -1},
	{Name: "F1208", Kind: "int", Bits: 8, Ver: 2, NVer: -1},
}

type S1210 struct {
	mp4.BaseCustomFieldObject
	F1213 []uint32 `mp4:"3,varint,opt=0x4,len=2"`
	F1212 uint8    `mp4:"2,size=8,nopt=0x4"`
	F1211 bool     `mp4:"1,size=1,opt=0x100"`
}

var specS1210 = []*F{
	{Name: "F1211", Kind: "bool", Bits: 1, Opt: 256, Ver: -1, NVer: -1},
	{Name: "F1212", Kind: "uint", Bits: 8, NOpt: 4, Ver: -1, NVer: -1},
	{Name: "F1213", Kind: "slice", Len: 2, Opt: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
}

func (b *S1210) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS1210, name, ctx)
}
func (b *S1210) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS1210, name, ctx)
}
func (b *S1210) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS1210, name, ctx)
}
func (b *S1210) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS1210, name, s, left, ctx)
}
func (b *S1210) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS1210, name, r, left, ctx)
}
func (b *S1210) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS1210, name, w, ctx)
}

type S1228 struct {
	F1229 uint8 `mp4:"1,hex,size=3,nopt=0x1"`
}

var specS1228 = []*F{
	{Name: "F1229", Kind: "uint", Bits: 3, NOpt: 1, Ver: -1, NVer: -1},
}

type S1233 struct {
	F1236 bool   `mp4:"3,size=8"`
	F1235 uint64 `mp4:"2,nver=2,size=64"`
	F1234 bool   `mp4:"1,size=16"`
}

var specS1233 = []*F{
	{Name: "F1234", Kind: "bool", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F1235", Kind: "uint", Bits: 64, Ver: -1, NVer: 2},
	{Name: "F1236", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
}

type S1231 struct {
	F1232 *S1233 `mp4:"1"`
}

var specS1231 = []*F{
	{Name: "F1232", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1233", Fields: []*F{{Name: "F1234", Kind: "bool", Bits: 16, Ver: -1, NVer: -1}, {Name: "F1235", Kind: "uint", Bits: 64, Ver: -1, NVer: 2}, {Name: "F1236", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}}}},
}

type S1225 struct {
	mp4.BaseCustomFieldObject
	F1226    string   `mp4:"1,string=c_p,nver=1"`
	F1227    *S1228   `mp4:"2"`
	F1230Len uint16   `mp4:"3,size=16"`
	F1230    []*S1231 `mp4:"4,len=dynamic"`
}

var specS1225 = []*F{
	{Name: "F1226", Kind: "string", Ver: -1, NVer: 1, CP: true},
	{Name: "F1227", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1228", Fields: []*F{{Name: "F1229", Kind: "uint", Bits: 3, NOpt: 1, Ver: -1, NVer: -1}}}},
	{Name: "F1230Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1230", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1231", Fields: []*F{{Name: "F1232", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1233", Fields: []*F{{Name: "F1234", Kind: "bool", Bits: 16, Ver: -1, NVer: -1}, {Name: "F1235", Kind: "uint", Bits: 64, Ver: -1, NVer: 2}, {Name: "F1236", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}}}}}}}},
}

func (b *S1225) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS1225, name, ctx)
}
func (b *S1225) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS1225, name, ctx)
}
func (b *S1225) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS1225, name, ctx)
}
func (b *S1225) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS1225, name, s, left, ctx)
}
func (b *S1225) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS1225, name, r, left, ctx)
}
func (b *S1225) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS1225, name, w, ctx)
}

type S1222 struct {
	F1223 string `mp4:"1,string"`
	F1224 *S1225 `mp4:"2"`
}

var specS1222 = []*F{
	{Name: "F1223", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F1224", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1225", Fields: []*F{{Name: "F1226", Kind: "string", Ver: -1, NVer: 1, CP: true}, {Name: "F1227", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1228", Fields: []*F{{Name: "F1229", Kind: "uint", Bits: 3, NOpt: 1, Ver: -1, NVer: -1}}}}, {Name: "F1230Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1}, {Name: "F1230", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1231", Fields: []*F{{Name: "F1232", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1233", Fields: []*F{{Name: "F1234", Kind: "bool", Bits: 16, Ver: -1, NVer: -1}, {Name: "F1235", Kind: "uint", Bits: 64, Ver: -1, NVer: 2}, {Name: "F1236", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}}}}}}}}}}},
}

type S1238 struct {
	A1238 uint16  `mp4:"1,size=16"`
	B1238 []uint8 `mp4:"2,size=8"`
}

var specS1238 = []*F{
	{Name: "A1238", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B1238", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S1241 struct {
	mp4.BaseCustomFieldObject
	F1242Len uint16  `mp4:"1,size=16"`
	F1242    []Octet `mp4:"2,len=dynamic,size=8"`
	F1243    uint16  `mp4:"3,size=16"`
}

var specS1241 = []*F{
	{Name: "F1242Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1242", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1243", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
}

func (b *S1241) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS1241, name, ctx)
}
func (b *S1241) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS1241, name, ctx)
}
func (b *S1241) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS1241, name, ctx)
}
func (b *S1241) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS1241, name, s, left, ctx)
}
func (b *S1241) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS1241, name, r, left, ctx)
}
func (b *S1241) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS1241, name, w, ctx)
}

type S1256 struct {
	A1256 uint16  `mp4:"1,size=16"`
	B1256 []uint8 `mp4:"2,size=8"`
}

var specS1256 = []*F{
	{Name: "A1256", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B1256", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S1265 struct {
	A1265 uint8  `mp4:"1,size=3"`
	B1265 int16  `mp4:"2,size=13"`
	C1265 string `mp4:"3,string"`
}

var specS1265 = []*F{
	{Name: "A1265", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "B1265", Kind: "int", Bits: 13, Ver: -1, NVer: -1},
	{Name: "C1265", Kind: "string", Ver: -1, NVer: -1},
}

type S1271 struct {
	mp4.BaseCustomFieldObject
	F1272 uint64 `mp4:"1,size=48,hex"`
}

var specS1271 = []*F{
	{Name: "F1272", Kind: "uint", Bits: 48, Ver: -1, NVer: -1},
}

func (b *S1271) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS1271, name, ctx)
}
func (b *S1271) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS1271, name, ctx)
}
func (b *S1271) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS1271, name, ctx)
}
func (b *S1271) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS1271, name, s, left, ctx)
}
func (b *S1271) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS1271, name, r, left, ctx)
}
func (b *S1271) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS1271, name, w, ctx)
}

type S1277 struct {
	F1278 []uint8 `mp4:"1,size=8,len=5"`
	F1279 bool    `mp4:"2,size=1"`
}

var specS1277 = []*F{
	{Name: "F1278", Kind: "slice", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1279", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
}

type S1285 struct {
	mp4.BaseCustomFieldObject
	F1286Len uint16   `mp4:"1,size=16"`
	F1288    []string `mp4:"4,string,len=4"`
	F1287    bool     `mp4:"3,size=1"`
	F1286    []uint8  `mp4:"2,len=dynamic,size=8"`
}

var specS1285 = []*F{
	{Name: "F1286Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1286", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1287", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
	{Name: "F1288", Kind: "slice", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
}

func (b *S1285) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS1285, name, ctx)
}
func (b *S1285) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS1285, name, ctx)
}
func (b *S1285) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS1285, name, ctx)
}
func (b *S1285) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS1285, name, s, left, ctx)
}
func (b *S1285) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS1285, name, r, left, ctx)
}
func (b *S1285) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS1285, name, w, ctx)
}

type S1283 struct {
	F1289 uint64  `mp4:"2,nver=0,size=16"`
	F1290 []uint8 `mp4:"3,len=2,size=8"`
	F1284 *S1285  `mp4:"1"`
}

var specS1283 = []*F{
	{Name: "F1284", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1285", Fields: []*F{{Name: "F1286Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1}, {Name: "F1286", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1287", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}, {Name: "F1288", Kind: "slice", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}}}}},
	{Name: "F1289", Kind: "uint", Bits: 16, Ver: -1, NVer: 0},
	{Name: "F1290", Kind: "slice", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S1297 struct {
	F1298 bool `mp4:"1,nopt=0x100,size=1"`
}

var specS1297 = []*F{
	{Name: "F1298", Kind: "bool", Bits: 1, NOpt: 256, Ver: -1, NVer: -1},
}

type S1305 struct {
	F1306 []string `mp4:"1,string,len=1"`
	F1307 uint32   `mp4:"2,size=16"`
}

var specS1305 = []*F{
	{Name: "F1306", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "F1307", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
}

type S1309 struct {
	F1310 []uint8  `mp4:"1,size=8,len=1"`
	F1312 int64    `mp4:"3,size=64"`
	F1311 [2]uint8 `mp4:"2,opt=0x2,hex,size=8"`
}

var specS1309 = []*F{
	{Name: "F1310", Kind: "slice", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1311", Kind: "array", Bits: 8, Len: 2, Opt: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1312", Kind: "int", Bits: 64, Ver: -1, NVer: -1},
}

type S1319 struct {
	F1321 uint8    `mp4:"2,opt=0x2,size=3"`
	F1320 []string `mp4:"1,string,len=6"`
	F1322 uint64   `mp4:"3,size=29"`
}

var specS1319 = []*F{
	{Name: "F1320", Kind: "slice", Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "F1321", Kind: "uint", Bits: 3, Opt: 2, Ver: -1, NVer: -1},
	{Name: "F1322", Kind: "uint", Bits: 29, Ver: -1, NVer: -1},
}

type S1316 struct {
	mp4.BaseCustomFieldObject
	F1317 uint64 `mp4:"1,size=30"`
	F1318 *S1319 `mp4:"2"`
	F1323 uint32 `mp4:"3,size=24"`
}

var specS1316 = []*F{
	{Name: "F1317", Kind: "uint", Bits: 30, HookBits: 15, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F1318", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1319", Fields: []*F{{Name: "F1320", Kind: "slice", Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}}, {Name: "F1321", Kind: "uint", Bits: 3, Opt: 2, Ver: -1, NVer: -1}, {Name: "F1322", Kind: "uint", Bits: 29, Ver: -1, NVer: -1}}}},
	{Name: "F1323", Kind: "uint", Bits: 24, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"},
}

func (b *S1316) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS1316, name, ctx)
}
func (b *S1316) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS1316, name, ctx)
}
func (b *S1316) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS1316, name, ctx)
}
func (b *S1316) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS1316, name, s, left, ctx)
}
func (b *S1316) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS1316, name, r, left, ctx)
}
func (b *S1316) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS1316, name, w, ctx)
}

type S1328 struct {
	A1328 uint16   `mp4:"1,size=16"`
	B1328 []uint16 `mp4:"2,size=8"`
}

var specS1328 = []*F{
	{Name: "A1328", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "B1328", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type S1330 struct {
	F1331 []uint8  `mp4:"1,size=8,len=3"`
	F1332 [1]uint8 `mp4:"2,opt=1,size=8"`
	F1333 uint32   `mp4:"3,varint"`
}

var specS1330 = []*F{
	{Name: "F1331", Kind: "slice", Bits: 8, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1332", Kind: "array", Bits: 8, Len: 1, Opt: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1333", Kind: "varint", Ver: -1, NVer: -1},
}

type S1341 struct {
	mp4.BaseCustomFieldObject
	F1342Len uint16   `mp4:"1,size=16"`
	F1342    []uint32 `mp4:"2,varint,len=dynamic"`
	F1343    bool     `mp4:"3,size=8"`
	F1344On  bool     `mp4:"4,size=8"`
	F1344    string   `mp4:"5,string,opt=dynamic"`
}

var specS1341 = []*F{
	{Name: "F1342Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1342", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F1343", Kind: "bool", Bits: 8, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F1344On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1344", Kind: "string", Ver: -1, NVer: -1, OptDyn: true},
}

func (b *S1341) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specS1341, name, ctx)
}
func (b *S1341) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specS1341, name, ctx)
}
func (b *S1341) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specS1341, name, ctx)
}
func (b *S1341) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specS1341, name, s, left, ctx)
}
func (b *S1341) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specS1341, name, r, left, ctx)
}
func (b *S1341) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specS1341, name, w, ctx)
}

type S1339 struct {
	F1340 []*S1341 `mp4:"1,len=3"`
	F1345 uint32   `mp4:"2,varint"`
}

var specS1339 = []*F{
	{Name: "F1340", Kind: "slice", Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1341", Fields: []*F{{Name: "F1342Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1}, {Name: "F1342", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}, {Name: "F1343", Kind: "bool", Bits: 8, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"}, {Name: "F1344On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F1344", Kind: "string", Ver: -1, NVer: -1, OptDyn: true}}}}},
	{Name: "F1345", Kind: "varint", Ver: -1, NVer: -1},
}

type S1349 struct {
	F1350 bool `mp4:"1,size=1"`
}

var specS1349 = []*F{
	{Name: "F1350", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
}

type S1359 struct {
	A1359 uint16  `mp4:"1,size=8"`
	B1359 []uint8 `mp4:"2,size=8"`
}

var specS1359 = []*F{
	{Name: "A1359", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "B1359", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

type U00 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F2          *S3      `mp4:"2"`
	F10         uint16   `mp4:"3,size=16"`
	F11         bool     `mp4:"4,size=8,opt=0x100"`
	F12         []uint32 `mp4:"5,opt=0x1,varint,len=4"`
	F13Len      uint16   `mp4:"6,size=8"`
	F13         []*S14   `mp4:"7,len=dynamic"`
	F17         [4]*S18  `mp4:"8"`
	Tail        []uint8  `mp4:"9,size=1,len=dynamic"`
	Last        []S22    `mp4:"10"`
}

var specU00 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F2", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S3", Fields: []*F{{Name: "F4", Kind: "slice", Bits: 30, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 30, Ver: -1, NVer: -1}}, {Name: "F5", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S6", Fields: []*F{{Name: "F7", Kind: "uint", Bits: 8, HookBits: 8, Ver: -1, NVer: -1, Hook: "override"}, {Name: "F8", Kind: "uint", Bits: 26, Ver: 2, NVer: -1}, {Name: "F9", Kind: "uint", Bits: 16, HookBits: 2, Ver: 1, NVer: -1, Hook: "prefix"}}}}}}}},
	{Name: "F10", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F11", Kind: "bool", Bits: 8, Opt: 256, Ver: -1, NVer: -1},
	{Name: "F12", Kind: "slice", Len: 4, Opt: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F13Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F13", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S14", Fields: []*F{{Name: "F15", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}, {Name: "F16", Kind: "int", Bits: 64, Ver: 1, NVer: -1}}}}},
	{Name: "F17", Kind: "array", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S18", Fields: []*F{{Name: "F19", Kind: "array", Bits: 8, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F20Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1}, {Name: "F20", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S22", Fields: []*F{{Name: "A22", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}, {Name: "B22", Kind: "int", Bits: 13, Ver: -1, NVer: -1}, {Name: "C22", Kind: "string", Ver: -1, NVer: -1}}}},
}

func (b *U00) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU00, name, ctx)
}
func (b *U00) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU00, name, ctx)
}
func (b *U00) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU00, name, ctx)
}
func (b *U00) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU00, name, s, left, ctx)
}
func (b *U00) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU00, name, r, left, ctx)
}
func (b *U00) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU00, name, w, ctx)
}

func (*U00) GetType() mp4.BoxType { return mp4.StrToBoxType("u000") }

type U01 struct {
	mp4.FullBox `mp4:"0,extend"`
	Tail        []uint8  `mp4:"3,size=1,len=dynamic"`
	TailLen     uint8    `mp4:"1,size=8"`
	Last        []string `mp4:"4,string"`
	F24         int64    `mp4:"2,size=32"`
}

var specU01 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F24", Kind: "int", Bits: 32, HookBits: 32, Ver: -1, NVer: -1, Hook: "override"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
}

func (b *U01) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU01, name, ctx)
}
func (b *U01) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU01, name, ctx)
}
func (b *U01) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU01, name, ctx)
}
func (b *U01) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU01, name, s, left, ctx)
}
func (b *U01) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU01, name, r, left, ctx)
}
func (b *U01) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU01, name, w, ctx)
}

func (*U01) GetType() mp4.BoxType { return mp4.StrToBoxType("u001") }

type U02 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,dec,size=8"`
	F27Len      uint16   `mp4:"2,size=8"`
	F27         []uint32 `mp4:"3,len=dynamic,varint"`
	F28On       bool     `mp4:"4,size=8"`
	F28         int32    `mp4:"5,opt=dynamic,size=16,dec"`
	F29         uint64   `mp4:"6,nver=2,size=63"`
	F30         string   `mp4:"7,ver=2,string"`
	Tail        []uint8  `mp4:"8,size=1,len=dynamic"`
	Last        []uint32 `mp4:"9,varint"`
}

var specU02 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F27Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F27", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F28On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F28", Kind: "int", Bits: 16, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F29", Kind: "uint", Bits: 63, Ver: -1, NVer: 2},
	{Name: "F30", Kind: "string", Ver: 2, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
}

func (b *U02) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU02, name, ctx)
}
func (b *U02) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU02, name, ctx)
}
func (b *U02) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU02, name, ctx)
}
func (b *U02) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU02, name, s, left, ctx)
}
func (b *U02) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU02, name, r, left, ctx)
}
func (b *U02) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU02, name, w, ctx)
}

func (*U02) GetType() mp4.BoxType { return mp4.StrToBoxType("u002") }

type U03 struct {
	mp4.FullBox `mp4:"0,extend"`
	F33         uint64  `mp4:"3,size=dynamic"`
	TailLen     uint8   `mp4:"1,size=8"`
	F33Bits     uint8   `mp4:"2,size=8"`
	Last        string  `mp4:"5,string"`
	Tail        []uint8 `mp4:"4,len=dynamic,size=1"`
}

var specU03 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F33Bits", Kind: "uint", Bits: 8, Max: 64, Min: 1, Ver: -1, NVer: -1},
	{Name: "F33", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1},
}

func (b *U03) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU03, name, ctx)
}
func (b *U03) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU03, name, ctx)
}
func (b *U03) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU03, name, ctx)
}
func (b *U03) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU03, name, s, left, ctx)
}
func (b *U03) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU03, name, r, left, ctx)
}
func (b *U03) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU03, name, w, ctx)
}

func (*U03) GetType() mp4.BoxType { return mp4.StrToBoxType("u003") }

type U04 struct {
	mp4.FullBox `mp4:"0,extend"`
	F38         uint64  `mp4:"5,size=dynamic"`
	Last        []int32 `mp4:"7,size=24"`
	Tail        []uint8 `mp4:"6,len=dynamic,size=1"`
	F38Bits     uint8   `mp4:"4,size=8"`
	TailLen     uint8   `mp4:"1,size=8"`
	F36         bool    `mp4:"2,size=1,ver=2"`
	F37         uint32  `mp4:"3,opt=0x4,dec,size=32"`
}

var specU04 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F36", Kind: "bool", Bits: 1, Ver: 2, NVer: -1},
	{Name: "F37", Kind: "uint", Bits: 32, Opt: 4, Ver: -1, NVer: -1},
	{Name: "F38Bits", Kind: "uint", Bits: 8, Max: 64, Min: 1, Ver: -1, NVer: -1},
	{Name: "F38", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 24, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 24, Ver: -1, NVer: -1}},
}

func (b *U04) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU04, name, ctx)
}
func (b *U04) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU04, name, ctx)
}
func (b *U04) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU04, name, ctx)
}
func (b *U04) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU04, name, s, left, ctx)
}
func (b *U04) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU04, name, r, left, ctx)
}
func (b *U04) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU04, name, w, ctx)
}

func (*U04) GetType() mp4.BoxType { return mp4.StrToBoxType("u004") }

type U05 struct {
	mp4.FullBox `mp4:"0,extend"`
	F41         []Octet  `mp4:"3,len=dynamic,size=8"`
	F43         []string `mp4:"6,string,len=dynamic"`
	F42         uint8    `mp4:"4,size=7"`
	Last        []Octet  `mp4:"9,size=8"`
	F44         uint64   `mp4:"7,size=32,opt=0x2"`
	F41Len      uint16   `mp4:"2,size=16"`
	TailLen     uint8    `mp4:"1,size=8"`
	Tail        []uint8  `mp4:"8,size=1,len=dynamic"`
	F43Len      uint16   `mp4:"5,size=16"`
}

var specU05 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F41Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F41", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F42", Kind: "uint", Bits: 7, Ver: -1, NVer: -1},
	{Name: "F43Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F43", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "F44", Kind: "uint", Bits: 32, Opt: 2, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U05) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU05, name, ctx)
}
func (b *U05) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU05, name, ctx)
}
func (b *U05) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU05, name, ctx)
}
func (b *U05) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU05, name, s, left, ctx)
}
func (b *U05) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU05, name, r, left, ctx)
}
func (b *U05) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU05, name, w, ctx)
}

func (*U05) GetType() mp4.BoxType { return mp4.StrToBoxType("u005") }

type U06 struct {
	mp4.Box
	TailLen uint8   `mp4:"1,size=8"`
	Tail    []uint8 `mp4:"3,size=1,len=dynamic"`
	F47     uint16  `mp4:"2,size=16"`
}

var specU06 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F47", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U06) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU06, name, ctx)
}
func (b *U06) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU06, name, ctx)
}
func (b *U06) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU06, name, ctx)
}
func (b *U06) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU06, name, s, left, ctx)
}
func (b *U06) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU06, name, r, left, ctx)
}
func (b *U06) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU06, name, w, ctx)
}

func (*U06) GetType() mp4.BoxType { return mp4.StrToBoxType("u006") }

type U07 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F50         []*S51   `mp4:"2,nopt=0x100,len=3"`
	F54         string   `mp4:"3,nver=1,string"`
	F55         [3]Octet `mp4:"4,size=8,opt=2"`
	Tail        []uint8  `mp4:"5,len=dynamic,size=1"`
	Last        []byte   `mp4:"6,size=8"`
}

var specU07 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F50", Kind: "slice", Len: 3, NOpt: 256, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S51", Fields: []*F{{Name: "F52", Kind: "uint", Bits: 28, Ver: -1, NVer: -1}, {Name: "F53", Kind: "bool", Bits: 7, Ver: 0, NVer: -1}}}}},
	{Name: "F54", Kind: "string", Ver: -1, NVer: 1},
	{Name: "F55", Kind: "array", Bits: 8, Len: 3, Opt: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U07) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU07, name, ctx)
}
func (b *U07) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU07, name, ctx)
}
func (b *U07) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU07, name, ctx)
}
func (b *U07) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU07, name, s, left, ctx)
}
func (b *U07) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU07, name, r, left, ctx)
}
func (b *U07) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU07, name, w, ctx)
}

func (*U07) GetType() mp4.BoxType { return mp4.StrToBoxType("u007") }

type U08 struct {
	mp4.FullBox `mp4:"0,extend"`
	Last        []Octet `mp4:"6,size=8"`
	F59         uint16  `mp4:"3,size=16"`
	F60         int32   `mp4:"4,size=32,opt=0x100"`
	Tail        []uint8 `mp4:"5,len=dynamic,size=1,hex"`
	TailLen     uint8   `mp4:"1,size=8"`
	F58         int32   `mp4:"2,size=24"`
}

var specU08 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F58", Kind: "int", Bits: 24, Ver: -1, NVer: -1},
	{Name: "F59", Kind: "uint", Bits: 16, Ver: -1, NVer: -1, Hook: "peek"},
	{Name: "F60", Kind: "int", Bits: 32, Opt: 256, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U08) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU08, name, ctx)
}
func (b *U08) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU08, name, ctx)
}
func (b *U08) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU08, name, ctx)
}
func (b *U08) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU08, name, s, left, ctx)
}
func (b *U08) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU08, name, r, left, ctx)
}
func (b *U08) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU08, name, w, ctx)
}

func (*U08) GetType() mp4.BoxType { return mp4.StrToBoxType("u008") }

type U09 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F63         uint32  `mp4:"2,varint"`
	F64Bits     uint8   `mp4:"3,size=8"`
	F64         int64   `mp4:"4,size=dynamic"`
	F65         uint32  `mp4:"5,varint"`
	F66On       bool    `mp4:"6,size=8"`
	F66         []uint8 `mp4:"7,opt=dynamic,size=8,len=4"`
	Tail        []uint8 `mp4:"8,len=dynamic,size=1"`
	Last        []Octet `mp4:"9,size=8"`
}

var specU09 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F63", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F64Bits", Kind: "uint", Bits: 8, Max: 64, Min: 1, Ver: -1, NVer: -1},
	{Name: "F64", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F65", Kind: "varint", HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F66On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F66", Kind: "slice", Bits: 8, Len: 4, Ver: -1, NVer: -1, OptDyn: true, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U09) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU09, name, ctx)
}
func (b *U09) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU09, name, ctx)
}
func (b *U09) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU09, name, ctx)
}
func (b *U09) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU09, name, s, left, ctx)
}
func (b *U09) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU09, name, r, left, ctx)
}
func (b *U09) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU09, name, w, ctx)
}

func (*U09) GetType() mp4.BoxType { return mp4.StrToBoxType("u009") }

type U10 struct {
	mp4.Box
	TailLen uint8   `mp4:"1,size=8"`
	F69     int64   `mp4:"2,size=22"`
	F70     S71     `mp4:"3"`
	F75     *S76    `mp4:"4"`
	F80     *S81    `mp4:"5"`
	F84     uint8   `mp4:"6,size=8"`
	F85     uint16  `mp4:"7,size=16"`
	Tail    []uint8 `mp4:"8,size=1,len=dynamic"`
	Last    string  `mp4:"9,boxstring"`
}

var specU10 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F69", Kind: "int", Bits: 22, Ver: -1, NVer: -1},
	{Name: "F70", Kind: "struct", Ver: -1, NVer: -1, Sub: "S71", Fields: []*F{{Name: "F72", Kind: "varint", Ver: -1, NVer: -1}, {Name: "F73", Kind: "array", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F74", Kind: "slice", Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}}},
	{Name: "F75", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S76", Fields: []*F{{Name: "F77", Kind: "uint", Bits: 48, Ver: -1, NVer: -1}, {Name: "F78", Kind: "int", Bits: 2, Ver: -1, NVer: -1}, {Name: "F79", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}}}},
	{Name: "F80", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S81", Fields: []*F{{Name: "F82", Kind: "slice", Bits: 8, Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F83", Kind: "uint", Bits: 7, Ver: -1, NVer: -1}}}},
	{Name: "F84", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F85", Kind: "uint", Bits: 16, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, Box: true},
}

func (b *U10) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU10, name, ctx)
}
func (b *U10) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU10, name, ctx)
}
func (b *U10) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU10, name, ctx)
}
func (b *U10) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU10, name, s, left, ctx)
}
func (b *U10) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU10, name, r, left, ctx)
}
func (b *U10) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU10, name, w, ctx)
}

func (*U10) GetType() mp4.BoxType { return mp4.StrToBoxType("u010") }
func (b *U10) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 4, size, ctx)
}

type U11 struct {
	mp4.Box
	F88     []*S89  `mp4:"2,len=6"`
	Tail    []uint8 `mp4:"3,len=dynamic,size=1"`
	TailLen uint8   `mp4:"1,size=8"`
}

var specU11 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F88", Kind: "slice", Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S89", Fields: []*F{{Name: "F90", Kind: "struct", Ver: -1, NVer: -1, Sub: "S91", Fields: []*F{{Name: "F92", Kind: "uint", Bits: 64, Ver: -1, NVer: -1}, {Name: "F93", Kind: "int", Bits: 48, Ver: -1, NVer: -1}, {Name: "F94", Kind: "string", Ver: -1, NVer: -1}}}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U11) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU11, name, ctx)
}
func (b *U11) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU11, name, ctx)
}
func (b *U11) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU11, name, ctx)
}
func (b *U11) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU11, name, s, left, ctx)
}
func (b *U11) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU11, name, r, left, ctx)
}
func (b *U11) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU11, name, w, ctx)
}

func (*U11) GetType() mp4.BoxType { return mp4.StrToBoxType("u011") }

type U12 struct {
	mp4.Box
	TailLen uint8   `mp4:"1,size=8"`
	F97     S98     `mp4:"2"`
	F116Len uint16  `mp4:"3,size=16"`
	F116    []uint8 `mp4:"4,len=dynamic,size=8"`
	F117    int8    `mp4:"5,size=8"`
	Tail    []uint8 `mp4:"6,size=1,len=dynamic"`
	Last    string  `mp4:"7,string"`
}

var specU12 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F97", Kind: "struct", Ver: -1, NVer: -1, Sub: "S98", Fields: []*F{{Name: "F99", Kind: "uint", Bits: 64, Ver: -1, NVer: -1}, {Name: "F100", Kind: "struct", Ver: -1, NVer: -1, Sub: "S101", Fields: []*F{{Name: "F102", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S103", Fields: []*F{{Name: "F104", Kind: "uint", Bits: 24, Ver: -1, NVer: -1}}}}, {Name: "F105", Kind: "struct", Ver: -1, NVer: -1, Sub: "S106", Fields: []*F{{Name: "F107", Kind: "bool", Bits: 32, Ver: -1, NVer: -1}, {Name: "F108", Kind: "array", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F109", Kind: "string", Ver: -1, NVer: -1}}}, {Name: "F110", Kind: "slice", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S111", Fields: []*F{{Name: "F112", Kind: "int", Bits: 32, Ver: -1, NVer: -1}, {Name: "F113", Kind: "bool", Bits: 32, Ver: -1, NVer: -1}, {Name: "F114", Kind: "int", Bits: 5, Ver: -1, NVer: -1}}}}}}}, {Name: "F115", Kind: "uint", Bits: 32, Ver: -1, NVer: -1}}},
	{Name: "F116Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F116", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F117", Kind: "int", Bits: 8, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1},
}

func (b *U12) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU12, name, ctx)
}
func (b *U12) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU12, name, ctx)
}
func (b *U12) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU12, name, ctx)
}
func (b *U12) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU12, name, s, left, ctx)
}
func (b *U12) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU12, name, r, left, ctx)
}
func (b *U12) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU12, name, w, ctx)
}

func (*U12) GetType() mp4.BoxType { return mp4.StrToBoxType("u012") }
func (b *U12) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 1, size, ctx)
}

type U13 struct {
	mp4.AnyTypeBox
	TailLen uint8   `mp4:"1,size=8"`
	F120    []Octet `mp4:"2,size=8,len=3"`
	Tail    []uint8 `mp4:"3,size=1,len=dynamic"`
	Last    string  `mp4:"4,string"`
}

var specU13 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F120", Kind: "slice", Bits: 8, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1},
}

func (b *U13) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU13, name, ctx)
}
func (b *U13) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU13, name, ctx)
}
func (b *U13) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU13, name, ctx)
}
func (b *U13) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU13, name, s, left, ctx)
}
func (b *U13) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU13, name, r, left, ctx)
}
func (b *U13) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU13, name, w, ctx)
}

func (b *U13) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 4, size, ctx)
}

type U14 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F123        S124    `mp4:"2,opt=0x100"`
	F146On      bool    `mp4:"3,size=8"`
	F146        string  `mp4:"4,string,opt=dynamic"`
	F147        int16   `mp4:"5,dec,size=16,nver=2"`
	F148        []Octet `mp4:"6,hex,len=3,size=8"`
	F149        *S150   `mp4:"7"`
	F154        uint16  `mp4:"8,nopt=0x4,size=12"`
	Tail        []uint8 `mp4:"9,size=1,len=dynamic"`
	Last        []byte  `mp4:"10,len=dynamic,size=8"`
}

var specU14 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F123", Kind: "struct", Opt: 256, Ver: -1, NVer: -1, Sub: "S124", Fields: []*F{{Name: "F125", Kind: "slice", Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S126", Fields: []*F{{Name: "F127", Kind: "struct", Ver: -1, NVer: -1, Sub: "S128", Fields: []*F{{Name: "F129", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S130", Fields: []*F{{Name: "F131", Kind: "slice", Bits: 8, Len: 4, Opt: 256, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F132", Kind: "uint", Bits: 5, Ver: -1, NVer: -1}}}}}}, {Name: "F133", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S134", Fields: []*F{{Name: "F135", Kind: "array", Bits: 8, Len: 1, NOpt: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F136", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S137", Fields: []*F{{Name: "F138", Kind: "int", Bits: 16, Opt: 2, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"}, {Name: "F139Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1}, {Name: "F139", Kind: "uint", Ver: -1, NVer: -1, DynBits: true}, {Name: "F140", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}}}}}}}, {Name: "F141", Kind: "int", Bits: 16, Ver: -1, NVer: -1}}}}, {Name: "F142", Kind: "slice", Len: 5, Ver: -1, NVer: 1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}}, {Name: "F143", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S144", Fields: []*F{{Name: "F145", Kind: "int", Bits: 64, Opt: 1, Ver: -1, NVer: -1}}}}}}},
	{Name: "F146On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F146", Kind: "string", Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F147", Kind: "int", Bits: 16, Ver: -1, NVer: 2},
	{Name: "F148", Kind: "slice", Bits: 8, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F149", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S150", Fields: []*F{{Name: "F151", Kind: "int", Bits: 64, Ver: -1, NVer: -1}, {Name: "F152", Kind: "int", Bits: 8, Ver: -1, NVer: -1}, {Name: "F153", Kind: "uint", Bits: 4, Ver: -1, NVer: 0}}}},
	{Name: "F154", Kind: "uint", Bits: 12, NOpt: 4, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U14) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU14, name, ctx)
}
func (b *U14) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU14, name, ctx)
}
func (b *U14) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU14, name, ctx)
}
func (b *U14) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU14, name, s, left, ctx)
}
func (b *U14) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU14, name, r, left, ctx)
}
func (b *U14) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU14, name, w, ctx)
}

func (*U14) GetType() mp4.BoxType { return mp4.StrToBoxType("u014") }

type U15 struct {
	mp4.FullBox `mp4:"0,extend"`
	Last        string  `mp4:"4,string=c_p"`
	TailLen     uint8   `mp4:"1,size=8"`
	Tail        []uint8 `mp4:"3,size=1,len=dynamic"`
	F157        string  `mp4:"2,string=c_p"`
}

var specU15 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F157", Kind: "string", Ver: -1, NVer: -1, CP: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, CP: true},
}

func (b *U15) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU15, name, ctx)
}
func (b *U15) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU15, name, ctx)
}
func (b *U15) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU15, name, ctx)
}
func (b *U15) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU15, name, s, left, ctx)
}
func (b *U15) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU15, name, r, left, ctx)
}
func (b *U15) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU15, name, w, ctx)
}

func (*U15) GetType() mp4.BoxType { return mp4.StrToBoxType("u015") }

type U16 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F160        uint64  `mp4:"2,size=64"`
	F161        []S162  `mp4:"3,len=0"`
	F164Len     uint16  `mp4:"4,size=8"`
	F164        []uint8 `mp4:"5,size=8,len=dynamic"`
	Tail        []uint8 `mp4:"6,len=dynamic,size=1"`
	Last        []S166  `mp4:"7,size=40"`
}

var specU16 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F160", Kind: "uint", Bits: 64, Ver: -1, NVer: -1},
	{Name: "F161", Kind: "slice", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S162", Fields: []*F{{Name: "F163", Kind: "int", Bits: 6, Opt: 4, Ver: -1, NVer: -1}}}},
	{Name: "F164Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F164", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Sized: 40, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Sized: 40, Ver: -1, NVer: -1, Sub: "S166", Fields: []*F{{Name: "A166", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B166", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
}

func (b *U16) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU16, name, ctx)
}
func (b *U16) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU16, name, ctx)
}
func (b *U16) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU16, name, ctx)
}
func (b *U16) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU16, name, s, left, ctx)
}
func (b *U16) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU16, name, r, left, ctx)
}
func (b *U16) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU16, name, w, ctx)
}

func (*U16) GetType() mp4.BoxType { return mp4.StrToBoxType("u016") }

type U17 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F168        []string `mp4:"2,string,len=3"`
	F169Bits    uint8    `mp4:"3,size=8"`
	F169        uint32   `mp4:"4,size=dynamic"`
	F170        uint32   `mp4:"5,size=24"`
	Tail        []uint8  `mp4:"6,size=1,len=dynamic"`
}

var specU17 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F168", Kind: "slice", Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "F169Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F169", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F170", Kind: "uint", Bits: 24, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U17) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU17, name, ctx)
}
func (b *U17) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU17, name, ctx)
}
func (b *U17) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU17, name, ctx)
}
func (b *U17) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU17, name, s, left, ctx)
}
func (b *U17) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU17, name, r, left, ctx)
}
func (b *U17) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU17, name, w, ctx)
}

func (*U17) GetType() mp4.BoxType { return mp4.StrToBoxType("u017") }

type U18 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F173        S174    `mp4:"2"`
	F178        uint32  `mp4:"3,varint"`
	F179        uint64  `mp4:"4,nver=2,size=64"`
	F180        uint16  `mp4:"5,ver=0,size=16"`
	F181On      bool    `mp4:"6,size=8"`
	F181        uint64  `mp4:"7,size=8,opt=dynamic"`
	Tail        []uint8 `mp4:"8,size=1,len=dynamic"`
	Last        []int32 `mp4:"9,size=24"`
}

var specU18 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F173", Kind: "struct", Ver: -1, NVer: -1, Sub: "S174", Fields: []*F{{Name: "F175", Kind: "slice", Len: 3, Ver: 1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}, {Name: "F176", Kind: "int", Bits: 48, Ver: 2, NVer: -1}, {Name: "F177", Kind: "uint", Bits: 32, Opt: 1, Ver: -1, NVer: -1}}},
	{Name: "F178", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F179", Kind: "uint", Bits: 64, Ver: -1, NVer: 2},
	{Name: "F180", Kind: "uint", Bits: 16, Ver: 0, NVer: -1},
	{Name: "F181On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F181", Kind: "uint", Bits: 8, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 24, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 24, Ver: -1, NVer: -1}},
}

func (b *U18) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU18, name, ctx)
}
func (b *U18) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU18, name, ctx)
}
func (b *U18) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU18, name, ctx)
}
func (b *U18) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU18, name, s, left, ctx)
}
func (b *U18) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU18, name, r, left, ctx)
}
func (b *U18) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU18, name, w, ctx)
}

func (*U18) GetType() mp4.BoxType { return mp4.StrToBoxType("u018") }

type U19 struct {
	mp4.FullBox `mp4:"0,extend"`
	F185        bool    `mp4:"3,size=8,ver=0"`
	F184        uint64  `mp4:"2,size=36"`
	TailLen     uint8   `mp4:"1,size=8"`
	Tail        []uint8 `mp4:"4,size=1,len=dynamic"`
}

var specU19 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F184", Kind: "uint", Bits: 36, Ver: -1, NVer: -1},
	{Name: "F185", Kind: "bool", Bits: 8, Ver: 0, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U19) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU19, name, ctx)
}
func (b *U19) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU19, name, ctx)
}
func (b *U19) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU19, name, ctx)
}
func (b *U19) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU19, name, s, left, ctx)
}
func (b *U19) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU19, name, r, left, ctx)
}
func (b *U19) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU19, name, w, ctx)
}

func (*U19) GetType() mp4.BoxType { return mp4.StrToBoxType("u019") }

type U20 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8     `mp4:"1,size=8"`
	F188        string    `mp4:"2,string"`
	F189        [3]uint32 `mp4:"3,varint"`
	F190Bits    uint8     `mp4:"4,size=8"`
	F190        uint32    `mp4:"5,size=dynamic"`
	F191Bits    uint8     `mp4:"6,size=8"`
	F191        int16     `mp4:"7,size=dynamic"`
	F192        S193      `mp4:"8"`
	Tail        []uint8   `mp4:"9,size=1,len=dynamic"`
	Last        []byte    `mp4:"10,size=8"`
}

var specU20 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F188", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F189", Kind: "array", Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F190Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F190", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F191Bits", Kind: "uint", Bits: 8, Max: 16, Min: 1, Ver: -1, NVer: -1},
	{Name: "F191", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F192", Kind: "struct", Ver: -1, NVer: -1, Sub: "S193", Fields: []*F{{Name: "F194", Kind: "struct", Ver: -1, NVer: -1, Sub: "S195", Fields: []*F{{Name: "F196", Kind: "slice", Bits: 8, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F197", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U20) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU20, name, ctx)
}
func (b *U20) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU20, name, ctx)
}
func (b *U20) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU20, name, ctx)
}
func (b *U20) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU20, name, s, left, ctx)
}
func (b *U20) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU20, name, r, left, ctx)
}
func (b *U20) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU20, name, w, ctx)
}

func (*U20) GetType() mp4.BoxType { return mp4.StrToBoxType("u020") }

type U21 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F200On      bool     `mp4:"2,size=8"`
	F200        bool     `mp4:"3,size=11,opt=dynamic"`
	F201        [1]uint8 `mp4:"4,size=8"`
	F202Bits    uint8    `mp4:"5,size=8"`
	F202        uint64   `mp4:"6,size=dynamic"`
	F203On      bool     `mp4:"7,size=8"`
	F203        uint16   `mp4:"8,opt=dynamic,size=16"`
	Tail        []uint8  `mp4:"9,len=dynamic,size=1"`
	Last        []string `mp4:"10,string"`
}

var specU21 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F200On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F200", Kind: "bool", Bits: 11, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F201", Kind: "array", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F202Bits", Kind: "uint", Bits: 8, Max: 64, Min: 1, Ver: -1, NVer: -1},
	{Name: "F202", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F203On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F203", Kind: "uint", Bits: 16, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
}

func (b *U21) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU21, name, ctx)
}
func (b *U21) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU21, name, ctx)
}
func (b *U21) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU21, name, ctx)
}
func (b *U21) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU21, name, s, left, ctx)
}
func (b *U21) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU21, name, r, left, ctx)
}
func (b *U21) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU21, name, w, ctx)
}

func (*U21) GetType() mp4.BoxType { return mp4.StrToBoxType("u021") }

type U22 struct {
	mp4.Box
	TailLen uint8   `mp4:"1,size=8"`
	F206    uint16  `mp4:"2,size=16"`
	Tail    []uint8 `mp4:"3,len=dynamic,size=1"`
	Last    string  `mp4:"4,string=c_p"`
}

var specU22 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F206", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, CP: true},
}

func (b *U22) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU22, name, ctx)
}
func (b *U22) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU22, name, ctx)
}
func (b *U22) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU22, name, ctx)
}
func (b *U22) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU22, name, s, left, ctx)
}
func (b *U22) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU22, name, r, left, ctx)
}
func (b *U22) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU22, name, w, ctx)
}

func (*U22) GetType() mp4.BoxType { return mp4.StrToBoxType("u022") }
func (b *U22) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 1, size, ctx)
}

type U23 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8,hex"`
	F209        int8     `mp4:"2,size=8,opt=0x100"`
	F210Bits    uint8    `mp4:"3,size=8"`
	F210        int32    `mp4:"4,size=dynamic"`
	F211        S212     `mp4:"5"`
	Tail        []uint8  `mp4:"6,size=1,len=dynamic"`
	Last        []uint16 `mp4:"7,size=2"`
}

var specU23 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F209", Kind: "int", Bits: 8, Opt: 256, HookBits: 11, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F210Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F210", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F211", Kind: "struct", Ver: -1, NVer: -1, Sub: "S212", Fields: []*F{{Name: "F213", Kind: "struct", Ver: -1, NVer: 2, Sub: "S214", Fields: []*F{{Name: "F215On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F215", Kind: "uint", Bits: 1, Ver: -1, NVer: -1, OptDyn: true}}}, {Name: "F216", Kind: "slice", Bits: 8, Len: 5, NOpt: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 2, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}},
}

func (b *U23) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU23, name, ctx)
}
func (b *U23) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU23, name, ctx)
}
func (b *U23) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU23, name, ctx)
}
func (b *U23) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU23, name, s, left, ctx)
}
func (b *U23) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU23, name, r, left, ctx)
}
func (b *U23) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU23, name, w, ctx)
}

func (*U23) GetType() mp4.BoxType { return mp4.StrToBoxType("u023") }

type U24 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8,hex"`
	F219        uint8   `mp4:"2,nopt=0x100,size=8"`
	Tail        []uint8 `mp4:"3,size=1,len=dynamic"`
	Last        []Octet `mp4:"4,size=8"`
}

var specU24 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F219", Kind: "uint", Bits: 8, NOpt: 256, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U24) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU24, name, ctx)
}
func (b *U24) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU24, name, ctx)
}
func (b *U24) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU24, name, ctx)
}
func (b *U24) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU24, name, s, left, ctx)
}
func (b *U24) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU24, name, r, left, ctx)
}
func (b *U24) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU24, name, w, ctx)
}

func (*U24) GetType() mp4.BoxType { return mp4.StrToBoxType("u024") }

type U25 struct {
	mp4.FullBox `mp4:"0,extend"`
	F222        uint32  `mp4:"2,dec,size=16"`
	Last        []*S224 `mp4:"4"`
	Tail        []uint8 `mp4:"3,size=1,len=dynamic"`
	TailLen     uint8   `mp4:"1,size=8"`
}

var specU25 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F222", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S224", Fields: []*F{{Name: "A224", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}, {Name: "B224", Kind: "int", Bits: 13, Ver: -1, NVer: -1}, {Name: "C224", Kind: "string", Ver: -1, NVer: -1}}}}},
}

func (b *U25) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU25, name, ctx)
}
func (b *U25) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU25, name, ctx)
}
func (b *U25) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU25, name, ctx)
}
func (b *U25) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU25, name, s, left, ctx)
}
func (b *U25) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU25, name, r, left, ctx)
}
func (b *U25) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU25, name, w, ctx)
}

func (*U25) GetType() mp4.BoxType { return mp4.StrToBoxType("u025") }

type U26 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F226        S227    `mp4:"2,size=48,ver=1"`
	F228Bits    uint8   `mp4:"3,size=8"`
	F228        S229    `mp4:"4,size=dynamic"`
	Tail        []uint8 `mp4:"5,len=dynamic,size=1"`
}

var specU26 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F226", Kind: "struct", Sized: 48, Ver: 1, NVer: -1, Sub: "S227", Fields: []*F{{Name: "A227", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}, {Name: "B227", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}},
	{Name: "F228Bits", Kind: "uint", Bits: 8, Max: 15, Min: 2, Ver: -1, NVer: -1, Times8: true},
	{Name: "F228", Kind: "struct", Ver: -1, NVer: -1, DynBits: true, Sub: "S229", Fields: []*F{{Name: "A229", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B229", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U26) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU26, name, ctx)
}
func (b *U26) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU26, name, ctx)
}
func (b *U26) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU26, name, ctx)
}
func (b *U26) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU26, name, s, left, ctx)
}
func (b *U26) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU26, name, r, left, ctx)
}
func (b *U26) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU26, name, w, ctx)
}

func (*U26) GetType() mp4.BoxType { return mp4.StrToBoxType("u026") }

type U27 struct {
	mp4.FullBox `mp4:"0,extend"`
	F233        bool      `mp4:"3,size=16"`
	F234        []string  `mp4:"5,string,len=dynamic"`
	Tail        []uint8   `mp4:"6,size=1,len=dynamic"`
	F232        [4]uint32 `mp4:"2,varint"`
	Last        []uint16  `mp4:"7,size=12,hex"`
	TailLen     uint8     `mp4:"1,size=8"`
	F234Len     uint16    `mp4:"4,size=16"`
}

var specU27 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F232", Kind: "array", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F233", Kind: "bool", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F234Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F234", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 12, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 12, Ver: -1, NVer: -1}},
}

func (b *U27) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU27, name, ctx)
}
func (b *U27) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU27, name, ctx)
}
func (b *U27) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU27, name, ctx)
}
func (b *U27) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU27, name, s, left, ctx)
}
func (b *U27) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU27, name, r, left, ctx)
}
func (b *U27) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU27, name, w, ctx)
}

func (*U27) GetType() mp4.BoxType { return mp4.StrToBoxType("u027") }

type U28 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F246Len     uint16  `mp4:"5,size=8"`
	F245        string  `mp4:"4,string"`
	F247        []*S248 `mp4:"8,len=dynamic"`
	F246        []uint8 `mp4:"6,len=dynamic,size=8"`
	F247Len     uint16  `mp4:"7,size=8"`
	F237        uint64  `mp4:"2,size=24"`
	Last        string  `mp4:"10,string=c_p"`
	F238        *S239   `mp4:"3"`
	Tail        []uint8 `mp4:"9,len=dynamic,size=1"`
}

var specU28 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F237", Kind: "uint", Bits: 24, Ver: -1, NVer: -1},
	{Name: "F238", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S239", Fields: []*F{{Name: "F240", Kind: "slice", Ver: -1, NVer: 2, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S241", Fields: []*F{{Name: "F242On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F242", Kind: "bool", Bits: 1, HookBits: 12, Ver: -1, NVer: -1, OptDyn: true, Hook: "prefix"}, {Name: "F243", Kind: "uint", Bits: 24, Ver: -1, NVer: -1}, {Name: "F244", Kind: "int", Bits: 64, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"}}}}}}}},
	{Name: "F245", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F246Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F246", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F247Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F247", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S248", Fields: []*F{{Name: "F249", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "F250", Kind: "slice", Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S251", Fields: []*F{{Name: "F252", Kind: "array", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}}}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, CP: true},
}

func (b *U28) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU28, name, ctx)
}
func (b *U28) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU28, name, ctx)
}
func (b *U28) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU28, name, ctx)
}
func (b *U28) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU28, name, s, left, ctx)
}
func (b *U28) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU28, name, r, left, ctx)
}
func (b *U28) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU28, name, w, ctx)
}

func (*U28) GetType() mp4.BoxType { return mp4.StrToBoxType("u028") }

type U29 struct {
	mp4.FullBox `mp4:"0,extend"`
	F256        uint8     `mp4:"3,size=8"`
	TailLen     uint8     `mp4:"1,size=8"`
	F258Bits    uint8     `mp4:"5,size=8"`
	Tail        []uint8   `mp4:"8,size=1,len=dynamic"`
	Last        []int32   `mp4:"9,size=24"`
	F257        [4]uint32 `mp4:"4,varint"`
	F260        [3]Octet  `mp4:"7,size=8,dec"`
	F255        string    `mp4:"2,string"`
	F258        S259      `mp4:"6,size=dynamic"`
}

var specU29 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F255", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F256", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F257", Kind: "array", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F258Bits", Kind: "uint", Bits: 8, Max: 15, Min: 2, Ver: -1, NVer: -1, Times8: true},
	{Name: "F258", Kind: "struct", Ver: -1, NVer: -1, DynBits: true, Sub: "S259", Fields: []*F{{Name: "A259", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B259", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}}}},
	{Name: "F260", Kind: "array", Bits: 8, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 24, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 24, Ver: -1, NVer: -1}},
}

func (b *U29) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU29, name, ctx)
}
func (b *U29) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU29, name, ctx)
}
func (b *U29) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU29, name, ctx)
}
func (b *U29) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU29, name, s, left, ctx)
}
func (b *U29) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU29, name, r, left, ctx)
}
func (b *U29) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU29, name, w, ctx)
}

func (*U29) GetType() mp4.BoxType { return mp4.StrToBoxType("u029") }

type U30 struct {
	mp4.FullBox `mp4:"0,extend"`
	F267        S268    `mp4:"6"`
	Tail        []uint8 `mp4:"8,size=1,len=dynamic"`
	F270        uint64  `mp4:"7,size=64"`
	F265        uint32  `mp4:"3,dec,size=24"`
	F266        []uint8 `mp4:"5,size=8,len=dynamic"`
	Last        []byte  `mp4:"9,hex,size=8,len=dynamic"`
	TailLen     uint8   `mp4:"1,size=8"`
	F266Len     uint16  `mp4:"4,size=8"`
	F263        S264    `mp4:"2,size=16"`
}

var specU30 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F263", Kind: "struct", Sized: 16, Ver: -1, NVer: -1, Sub: "S264", Fields: []*F{{Name: "A264", Kind: "uint", Bits: 12, Ver: -1, NVer: -1}, {Name: "B264", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}}}},
	{Name: "F265", Kind: "uint", Bits: 24, Ver: -1, NVer: -1},
	{Name: "F266Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F266", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F267", Kind: "struct", Ver: -1, NVer: -1, Sub: "S268", Fields: []*F{{Name: "F269", Kind: "int", Bits: 5, NOpt: 2, Ver: -1, NVer: -1}}},
	{Name: "F270", Kind: "uint", Bits: 64, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U30) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU30, name, ctx)
}
func (b *U30) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU30, name, ctx)
}
func (b *U30) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU30, name, ctx)
}
func (b *U30) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU30, name, s, left, ctx)
}
func (b *U30) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU30, name, r, left, ctx)
}
func (b *U30) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU30, name, w, ctx)
}

func (*U30) GetType() mp4.BoxType { return mp4.StrToBoxType("u030") }

type U31 struct {
	mp4.FullBox `mp4:"0,extend"`
	F276        []uint8 `mp4:"5,len=dynamic,size=8"`
	F276Len     uint16  `mp4:"4,size=8"`
	F273        []Octet `mp4:"2,size=8,len=0"`
	Tail        []uint8 `mp4:"6,size=1,len=dynamic"`
	F274        S275    `mp4:"3,nver=1,size=32"`
	TailLen     uint8   `mp4:"1,size=8"`
	Last        []byte  `mp4:"7,size=8,len=dynamic"`
}

var specU31 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F273", Kind: "slice", Bits: 8, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F274", Kind: "struct", Sized: 32, Ver: -1, NVer: 1, Sub: "S275", Fields: []*F{{Name: "A275", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B275", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}}}},
	{Name: "F276Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F276", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U31) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU31, name, ctx)
}
func (b *U31) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU31, name, ctx)
}
func (b *U31) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU31, name, ctx)
}
func (b *U31) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU31, name, s, left, ctx)
}
func (b *U31) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU31, name, r, left, ctx)
}
func (b *U31) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU31, name, w, ctx)
}

func (*U31) GetType() mp4.BoxType { return mp4.StrToBoxType("u031") }

type U32 struct {
	mp4.Box
	TailLen uint8   `mp4:"1,size=8"`
	F279    *S280   `mp4:"2"`
	F285    uint32  `mp4:"3,size=8"`
	F286    S287    `mp4:"4"`
	F292    uint16  `mp4:"5,size=16"`
	Tail    []uint8 `mp4:"6,size=1,len=dynamic"`
	Last    string  `mp4:"7,boxstring"`
}

var specU32 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F279", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S280", Fields: []*F{{Name: "F281", Kind: "string", Ver: -1, NVer: -1}, {Name: "F282", Kind: "int", Bits: 64, Ver: -1, NVer: -1}, {Name: "F283", Kind: "struct", Sized: 8, Ver: -1, NVer: -1, Sub: "S284", Fields: []*F{{Name: "A284", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}, {Name: "B284", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}}}}}}},
	{Name: "F285", Kind: "uint", Bits: 8, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F286", Kind: "struct", Ver: -1, NVer: -1, Sub: "S287", Fields: []*F{{Name: "F288Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1}, {Name: "F288", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}}, {Name: "F289", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S290", Fields: []*F{{Name: "F291", Kind: "int", Bits: 2, Ver: -1, NVer: -1}}}}}},
	{Name: "F292", Kind: "uint", Bits: 16, HookBits: 16, Ver: -1, NVer: -1, Hook: "override"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, Box: true},
}

func (b *U32) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU32, name, ctx)
}
func (b *U32) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU32, name, ctx)
}
func (b *U32) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU32, name, ctx)
}
func (b *U32) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU32, name, s, left, ctx)
}
func (b *U32) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU32, name, r, left, ctx)
}
func (b *U32) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU32, name, w, ctx)
}

func (*U32) GetType() mp4.BoxType { return mp4.StrToBoxType("u032") }
func (b *U32) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 1, size, ctx)
}

type U33 struct {
	mp4.Box
	TailLen uint8    `mp4:"1,size=8"`
	F296    string   `mp4:"3,string"`
	Last    []S298   `mp4:"5"`
	F295    [2]uint8 `mp4:"2,size=8"`
	Tail    []uint8  `mp4:"4,size=1,len=dynamic"`
}

var specU33 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F295", Kind: "array", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F296", Kind: "string", Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S298", Fields: []*F{{Name: "A298", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}, {Name: "B298", Kind: "int", Bits: 13, Ver: -1, NVer: -1}, {Name: "C298", Kind: "string", Ver: -1, NVer: -1}}}},
}

func (b *U33) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU33, name, ctx)
}
func (b *U33) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU33, name, ctx)
}
func (b *U33) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU33, name, ctx)
}
func (b *U33) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU33, name, s, left, ctx)
}
func (b *U33) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU33, name, r, left, ctx)
}
func (b *U33) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU33, name, w, ctx)
}

func (*U33) GetType() mp4.BoxType { return mp4.StrToBoxType("u033") }
func (b *U33) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 4, size, ctx)
}

type U34 struct {
	mp4.FullBox `mp4:"0,extend"`
	F300        uint8   `mp4:"2,size=6,opt=0x1"`
	F304        int64   `mp4:"7,size=48"`
	F303On      bool    `mp4:"5,size=8"`
	Tail        []uint8 `mp4:"10,len=dynamic,size=1"`
	TailLen     uint8   `mp4:"1,size=8"`
	F302        uint32  `mp4:"4,varint"`
	F303        uint16  `mp4:"6,size=16,opt=dynamic"`
	Last        []byte  `mp4:"11,size=8,len=dynamic"`
	F305Len     uint16  `mp4:"8,size=8"`
	F301        uint8   `mp4:"3,size=8,ver=0"`
	F305        []int8  `mp4:"9,len=dynamic,size=2"`
}

var specU34 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F300", Kind: "uint", Bits: 6, Opt: 1, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F301", Kind: "uint", Bits: 8, Ver: 0, NVer: -1},
	{Name: "F302", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F303On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F303", Kind: "uint", Bits: 16, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F304", Kind: "int", Bits: 48, Ver: -1, NVer: -1},
	{Name: "F305Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F305", Kind: "slice", Bits: 2, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 2, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U34) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU34, name, ctx)
}
func (b *U34) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU34, name, ctx)
}
func (b *U34) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU34, name, ctx)
}
func (b *U34) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU34, name, s, left, ctx)
}
func (b *U34) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU34, name, r, left, ctx)
}
func (b *U34) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU34, name, w, ctx)
}

func (*U34) GetType() mp4.BoxType { return mp4.StrToBoxType("u034") }

type U35 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F308        int32    `mp4:"2,size=24"`
	Tail        []uint8  `mp4:"3,size=1,len=dynamic"`
	Last        []string `mp4:"4,string"`
}

var specU35 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F308", Kind: "int", Bits: 24, Ver: -1, NVer: -1, Hook: "peek"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
}

func (b *U35) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU35, name, ctx)
}
func (b *U35) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU35, name, ctx)
}
func (b *U35) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU35, name, ctx)
}
func (b *U35) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU35, name, s, left, ctx)
}
func (b *U35) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU35, name, r, left, ctx)
}
func (b *U35) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU35, name, w, ctx)
}

func (*U35) GetType() mp4.BoxType { return mp4.StrToBoxType("u035") }

type U36 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F311        S312    `mp4:"2"`
	Tail        []uint8 `mp4:"3,len=dynamic,size=1"`
	Last        []int32 `mp4:"4,size=24"`
}

var specU36 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F311", Kind: "struct", Ver: -1, NVer: -1, Sub: "S312", Fields: []*F{{Name: "F313", Kind: "array", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}, {Name: "F314Bits", Kind: "uint", Bits: 8, Max: 16, Min: 1, Ver: -1, NVer: -1}, {Name: "F314", Kind: "int", Ver: -1, NVer: -1, DynBits: true}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 24, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 24, Ver: -1, NVer: -1}},
}

func (b *U36) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU36, name, ctx)
}
func (b *U36) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU36, name, ctx)
}
func (b *U36) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU36, name, ctx)
}
func (b *U36) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU36, name, s, left, ctx)
}
func (b *U36) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU36, name, r, left, ctx)
}
func (b *U36) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU36, name, w, ctx)
}

func (*U36) GetType() mp4.BoxType { return mp4.StrToBoxType("u036") }

type U37 struct {
	mp4.FullBox `mp4:"0,extend"`
	F317        uint8   `mp4:"2,opt=2,size=8"`
	F318        uint32  `mp4:"4,dec,size=dynamic"`
	F318Bits    uint8   `mp4:"3,size=8"`
	TailLen     uint8   `mp4:"1,size=8"`
	Tail        []uint8 `mp4:"5,len=dynamic,size=1"`
}

var specU37 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F317", Kind: "uint", Bits: 8, Opt: 2, Ver: -1, NVer: -1},
	{Name: "F318Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F318", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U37) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU37, name, ctx)
}
func (b *U37) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU37, name, ctx)
}
func (b *U37) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU37, name, ctx)
}
func (b *U37) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU37, name, s, left, ctx)
}
func (b *U37) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU37, name, r, left, ctx)
}
func (b *U37) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU37, name, w, ctx)
}

func (*U37) GetType() mp4.BoxType { return mp4.StrToBoxType("u037") }

type U38 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8     `mp4:"1,size=8"`
	F321        [1]*S322  `mp4:"2"`
	F324        [1]uint32 `mp4:"3,varint"`
	F325        [1]Octet  `mp4:"4,nopt=0x100,size=8"`
	Tail        []uint8   `mp4:"5,size=1,len=dynamic"`
	Last        string    `mp4:"6,boxstring"`
}

var specU38 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F321", Kind: "array", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S322", Fields: []*F{{Name: "F323", Kind: "array", Len: 1, Opt: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}}}}},
	{Name: "F324", Kind: "array", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F325", Kind: "array", Bits: 8, Len: 1, NOpt: 256, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, Box: true},
}

func (b *U38) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU38, name, ctx)
}
func (b *U38) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU38, name, ctx)
}
func (b *U38) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU38, name, ctx)
}
func (b *U38) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU38, name, s, left, ctx)
}
func (b *U38) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU38, name, r, left, ctx)
}
func (b *U38) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU38, name, w, ctx)
}

func (*U38) GetType() mp4.BoxType { return mp4.StrToBoxType("u038") }

type U39 struct {
	mp4.FullBox `mp4:"0,extend"`
	Tail        []uint8 `mp4:"4,size=1,len=dynamic"`
	F328On      bool    `mp4:"2,size=8"`
	F328        uint32  `mp4:"3,size=32,opt=dynamic"`
	Last        []S330  `mp4:"5,size=40"`
	TailLen     uint8   `mp4:"1,size=8"`
}

var specU39 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F328On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F328", Kind: "uint", Bits: 32, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Sized: 40, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Sized: 40, Ver: -1, NVer: -1, Sub: "S330", Fields: []*F{{Name: "A330", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B330", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
}

func (b *U39) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU39, name, ctx)
}
func (b *U39) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU39, name, ctx)
}
func (b *U39) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU39, name, ctx)
}
func (b *U39) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU39, name, s, left, ctx)
}
func (b *U39) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU39, name, r, left, ctx)
}
func (b *U39) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU39, name, w, ctx)
}

func (*U39) GetType() mp4.BoxType { return mp4.StrToBoxType("u039") }

type U40 struct {
	mp4.FullBox `mp4:"0,extend"`
	F343        [2]*S344 `mp4:"8,ver=0"`
	TailLen     uint8    `mp4:"1,hex,size=8"`
	F341Bits    uint8    `mp4:"5,size=8"`
	F342        []uint8  `mp4:"7,dec,len=2,size=8"`
	F340        bool     `mp4:"4,size=8"`
	F332        *S333    `mp4:"2"`
	F339        uint32   `mp4:"3,size=24"`
	Tail        []uint8  `mp4:"9,size=1,len=dynamic"`
	F341        uint8    `mp4:"6,size=dynamic"`
}

var specU40 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F332", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S333", Fields: []*F{{Name: "F334", Kind: "int", Bits: 64, Ver: -1, NVer: -1}, {Name: "F335", Kind: "bool", Bits: 16, Ver: -1, NVer: -1}, {Name: "F336", Kind: "array", Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S337", Fields: []*F{{Name: "F338On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F338", Kind: "uint", Bits: 51, HookBits: 16, Ver: -1, NVer: -1, OptDyn: true, Hook: "prefix"}}}}}}},
	{Name: "F339", Kind: "uint", Bits: 24, Ver: -1, NVer: -1},
	{Name: "F340", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F341Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1},
	{Name: "F341", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F342", Kind: "slice", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F343", Kind: "array", Len: 2, Ver: 0, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S344", Fields: []*F{{Name: "F345", Kind: "uint", Bits: 32, Ver: -1, NVer: -1}, {Name: "F346", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S347", Fields: []*F{{Name: "F348", Kind: "struct", Ver: -1, NVer: -1, Sub: "S349", Fields: []*F{{Name: "F350", Kind: "bool", Bits: 8, Opt: 2, Ver: -1, NVer: -1}, {Name: "F351", Kind: "array", Bits: 24, Len: 4, Opt: 256, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 24, Ver: -1, NVer: -1}}, {Name: "F352", Kind: "uint", Bits: 64, HookBits: 64, Ver: -1, NVer: -1, Hook: "override"}}}, {Name: "F353", Kind: "int", Bits: 16, Ver: -1, NVer: -1}, {Name: "F354", Kind: "varint", Ver: 1, NVer: -1}}}}, {Name: "F355", Kind: "uint", Bits: 40, Ver: -1, NVer: -1}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U40) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU40, name, ctx)
}
func (b *U40) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU40, name, ctx)
}
func (b *U40) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU40, name, ctx)
}
func (b *U40) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU40, name, s, left, ctx)
}
func (b *U40) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU40, name, r, left, ctx)
}
func (b *U40) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU40, name, w, ctx)
}

func (*U40) GetType() mp4.BoxType { return mp4.StrToBoxType("u040") }

type U41 struct {
	mp4.FullBox `mp4:"0,extend"`
	F358        *S359   `mp4:"2"`
	Tail        []uint8 `mp4:"5,size=1,len=dynamic"`
	F384        uint64  `mp4:"3,size=24"`
	TailLen     uint8   `mp4:"1,size=8"`
	F385        *S386   `mp4:"4"`
	Last        []*S390 `mp4:"6"`
}

var specU41 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F358", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S359", Fields: []*F{{Name: "F360", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S361", Fields: []*F{{Name: "F362", Kind: "slice", Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S363", Fields: []*F{{Name: "F364", Kind: "string", Ver: -1, NVer: -1}, {Name: "F365", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}}}}}, {Name: "F366", Kind: "int", Bits: 3, Opt: 4, Ver: -1, NVer: -1}}}}, {Name: "F367", Kind: "bool", Bits: 16, Ver: -1, NVer: -1}, {Name: "F368", Kind: "struct", Ver: -1, NVer: -1, Sub: "S369", Fields: []*F{{Name: "F370", Kind: "string", Ver: 0, NVer: -1}, {Name: "F371", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S372", Fields: []*F{{Name: "F373", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}}}}, {Name: "F374", Kind: "struct", Ver: -1, NVer: -1, Sub: "S375", Fields: []*F{{Name: "F376", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S377", Fields: []*F{{Name: "F378", Kind: "int", Bits: 32, Ver: -1, NVer: -1}, {Name: "F379", Kind: "bool", Bits: 8, Opt: 2, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"}}}}, {Name: "F380", Kind: "int", Bits: 64, NOpt: 4, Ver: -1, NVer: -1}, {Name: "F381", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S382", Fields: []*F{{Name: "F383", Kind: "string", NOpt: 4, Ver: -1, NVer: -1}}}}}}}}}}},
	{Name: "F384", Kind: "uint", Bits: 24, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F385", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S386", Fields: []*F{{Name: "F387", Kind: "varint", Ver: -1, NVer: -1}, {Name: "F388", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S390", Fields: []*F{{Name: "A390", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}, {Name: "B390", Kind: "int", Bits: 13, Ver: -1, NVer: -1}, {Name: "C390", Kind: "string", Ver: -1, NVer: -1}}}}},
}

func (b *U41) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU41, name, ctx)
}
func (b *U41) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU41, name, ctx)
}
func (b *U41) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU41, name, ctx)
}
func (b *U41) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU41, name, s, left, ctx)
}
func (b *U41) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU41, name, r, left, ctx)
}
func (b *U41) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU41, name, w, ctx)
}

func (*U41) GetType() mp4.BoxType { return mp4.StrToBoxType("u041") }

type U42 struct {
	mp4.FullBox `mp4:"0,extend"`
	F395        bool     `mp4:"5,size=1"`
	Last        []uint16 `mp4:"9,size=12,dec"`
	TailLen     uint8    `mp4:"1,size=8"`
	F392        uint8    `mp4:"2,size=6"`
	Tail        []uint8  `mp4:"8,len=dynamic,size=1"`
	F393        int16    `mp4:"3,size=16,nver=1"`
	F394        uint8    `mp4:"4,size=8"`
	F396        string   `mp4:"6,string,ver=0"`
	F397        uint64   `mp4:"7,size=64,opt=0x100,hex"`
}

var specU42 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F392", Kind: "uint", Bits: 6, Ver: -1, NVer: -1},
	{Name: "F393", Kind: "int", Bits: 16, HookBits: 8, Ver: -1, NVer: 1, Hook: "prefix"},
	{Name: "F394", Kind: "uint", Bits: 8, HookBits: 8, Ver: -1, NVer: -1, Hook: "override"},
	{Name: "F395", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
	{Name: "F396", Kind: "string", Ver: 0, NVer: -1},
	{Name: "F397", Kind: "uint", Bits: 64, Opt: 256, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 12, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 12, Ver: -1, NVer: -1}},
}

func (b *U42) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU42, name, ctx)
}
func (b *U42) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU42, name, ctx)
}
func (b *U42) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU42, name, ctx)
}
func (b *U42) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU42, name, s, left, ctx)
}
func (b *U42) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU42, name, r, left, ctx)
}
func (b *U42) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU42, name, w, ctx)
}

func (*U42) GetType() mp4.BoxType { return mp4.StrToBoxType("u042") }

type U43 struct {
	mp4.AnyTypeBox
	F418    string   `mp4:"6,string"`
	F401    *S402    `mp4:"4"`
	Tail    []uint8  `mp4:"9,len=dynamic,size=1"`
	F415    *S416    `mp4:"5"`
	TailLen uint8    `mp4:"1,size=8"`
	F419    []uint32 `mp4:"7,len=3,varint"`
	F400On  bool     `mp4:"2,size=8"`
	F420    *S421    `mp4:"8"`
	F400    string   `mp4:"3,opt=dynamic,string=c_p"`
}

var specU43 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F400On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F400", Kind: "string", Ver: -1, NVer: -1, OptDyn: true, CP: true},
	{Name: "F401", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S402", Fields: []*F{{Name: "F403", Kind: "slice", Bits: 16, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}}, {Name: "F404Bits", Kind: "uint", Bits: 8, Max: 15, Min: 1, Ver: -1, NVer: -1, Times8: true}, {Name: "F404", Kind: "struct", Ver: -1, NVer: -1, DynBits: true, Sub: "S405", Fields: []*F{{Name: "A405", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}, {Name: "B405", Kind: "slice", Bits: 2, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}}}}, {Name: "F406", Kind: "struct", Ver: -1, NVer: -1, Sub: "S407", Fields: []*F{{Name: "F408", Kind: "struct", Ver: -1, NVer: -1, Sub: "S409", Fields: []*F{{Name: "F410On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F410", Kind: "uint", Bits: 1, Ver: -1, NVer: -1, OptDyn: true, Hook: "peek"}, {Name: "F411", Kind: "array", Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}, {Name: "F412", Kind: "int", Bits: 32, Ver: -1, NVer: -1}}}, {Name: "F413", Kind: "int", Bits: 16, Ver: -1, NVer: -1}, {Name: "F414", Kind: "uint", Bits: 32, Ver: -1, NVer: -1}}}}}},
	{Name: "F415", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S416", Fields: []*F{{Name: "F417", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}},
	{Name: "F418", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F419", Kind: "slice", Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F420", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S421", Fields: []*F{{Name: "F422", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "F423Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1}, {Name: "F423", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}, {Name: "F424", Kind: "bool", Bits: 32, Ver: -1, NVer: -1}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U43) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU43, name, ctx)
}
func (b *U43) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU43, name, ctx)
}
func (b *U43) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU43, name, ctx)
}
func (b *U43) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU43, name, s, left, ctx)
}
func (b *U43) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU43, name, r, left, ctx)
}
func (b *U43) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU43, name, w, ctx)
}

type U44 struct {
	mp4.Box
	F427Bits uint8   `mp4:"2,size=8"`
	F429On   bool    `mp4:"5,size=8"`
	Last     []S440  `mp4:"11,size=40"`
	F429     int64   `mp4:"6,dec,opt=dynamic,size=24"`
	F438     int32   `mp4:"9,size=dynamic"`
	Tail     []uint8 `mp4:"10,size=1,len=dynamic"`
	TailLen  uint8   `mp4:"1,size=8"`
	F428     bool    `mp4:"4,size=7"`
	F438Bits uint8   `mp4:"8,size=8"`
	F427     uint32  `mp4:"3,size=dynamic"`
	F430     *S431   `mp4:"7"`
}

var specU44 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F427Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F427", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F428", Kind: "bool", Bits: 7, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F429On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F429", Kind: "int", Bits: 24, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F430", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S431", Fields: []*F{{Name: "F432", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F433", Kind: "struct", Ver: -1, NVer: -1, Sub: "S434", Fields: []*F{{Name: "F435", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "F436", Kind: "varint", Ver: -1, NVer: -1}, {Name: "F437", Kind: "slice", Bits: 8, Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}}}},
	{Name: "F438Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F438", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Sized: 40, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Sized: 40, Ver: -1, NVer: -1, Sub: "S440", Fields: []*F{{Name: "A440", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B440", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
}

func (b *U44) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU44, name, ctx)
}
func (b *U44) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU44, name, ctx)
}
func (b *U44) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU44, name, ctx)
}
func (b *U44) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU44, name, s, left, ctx)
}
func (b *U44) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU44, name, r, left, ctx)
}
func (b *U44) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU44, name, w, ctx)
}

func (*U44) GetType() mp4.BoxType { return mp4.StrToBoxType("u044") }

type U45 struct {
	mp4.FullBox `mp4:"0,extend"`
	F442        []string `mp4:"3,len=dynamic,string"`
	Last        []Octet  `mp4:"9,size=8"`
	F443        int32    `mp4:"4,size=32,nver=1"`
	F442Len     uint16   `mp4:"2,size=16"`
	TailLen     uint8    `mp4:"1,size=8"`
	F444        [3]S445  `mp4:"5"`
	Tail        []uint8  `mp4:"8,len=dynamic,size=1"`
	F471        [3]int16 `mp4:"6,ver=2,size=13"`
	F472        []*S473  `mp4:"7,len=1"`
}

var specU45 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F442Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F442", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "F443", Kind: "int", Bits: 32, Ver: -1, NVer: 1},
	{Name: "F444", Kind: "array", Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S445", Fields: []*F{{Name: "F446", Kind: "struct", Opt: 4, Ver: -1, NVer: -1, Sub: "S447", Fields: []*F{{Name: "F448", Kind: "struct", Ver: -1, NVer: -1, Sub: "S449", Fields: []*F{{Name: "F450", Kind: "string", Ver: -1, NVer: -1}, {Name: "F451", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S452", Fields: []*F{{Name: "F453Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1}, {Name: "F453", Kind: "uint", Ver: -1, NVer: -1, DynBits: true}, {Name: "F454", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S455", Fields: []*F{{Name: "F456", Kind: "uint", Bits: 16, NOpt: 256, Ver: -1, NVer: -1}, {Name: "F457", Kind: "array", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F458", Kind: "string", Opt: 256, Ver: -1, NVer: -1}}}}}}}, {Name: "F459", Kind: "int", Bits: 8, NOpt: 2, Ver: -1, NVer: -1}}}, {Name: "F460", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S461", Fields: []*F{{Name: "F462", Kind: "int", Bits: 48, Ver: -1, NVer: -1}, {Name: "F463", Kind: "array", Bits: 26, Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 26, Ver: -1, NVer: -1}}, {Name: "F464", Kind: "bool", Bits: 16, Ver: -1, NVer: -1}}}}}}, {Name: "F465", Kind: "struct", Ver: -1, NVer: -1, Sub: "S466", Fields: []*F{{Name: "F467", Kind: "uint", Bits: 8, Opt: 2, Ver: -1, NVer: -1}, {Name: "F468", Kind: "uint", Bits: 7, NOpt: 256, Ver: -1, NVer: -1}, {Name: "F469", Kind: "slice", Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}}}, {Name: "F470", Kind: "varint", Ver: -1, NVer: -1}}}},
	{Name: "F471", Kind: "array", Bits: 13, Len: 3, Ver: 2, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 13, Ver: -1, NVer: -1}},
	{Name: "F472", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S473", Fields: []*F{{Name: "F474", Kind: "array", Bits: 8, Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F475On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F475", Kind: "uint", Bits: 16, HookBits: 13, Ver: -1, NVer: -1, OptDyn: true, Hook: "prefix"}, {Name: "F476", Kind: "string", Ver: -1, NVer: 2}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U45) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU45, name, ctx)
}
func (b *U45) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU45, name, ctx)
}
func (b *U45) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU45, name, ctx)
}
func (b *U45) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU45, name, s, left, ctx)
}
func (b *U45) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU45, name, r, left, ctx)
}
func (b *U45) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU45, name, w, ctx)
}

func (*U45) GetType() mp4.BoxType { return mp4.StrToBoxType("u045") }

type U46 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F479Bits    uint8   `mp4:"2,size=8"`
	F479        uint16  `mp4:"3,size=dynamic"`
	F480        []S481  `mp4:"4,len=5"`
	F484        uint32  `mp4:"5,size=32"`
	F485        S486    `mp4:"6,opt=0x100"`
	F497Bits    uint8   `mp4:"7,size=8"`
	F497        uint8   `mp4:"8,size=dynamic"`
	Tail        []uint8 `mp4:"9,size=1,len=dynamic,hex"`
	Last        []S499  `mp4:"10"`
}

var specU46 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F479Bits", Kind: "uint", Bits: 8, Max: 16, Min: 1, Ver: -1, NVer: -1},
	{Name: "F479", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F480", Kind: "slice", Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S481", Fields: []*F{{Name: "F482", Kind: "varint", Ver: -1, NVer: -1}, {Name: "F483", Kind: "int", Bits: 32, Ver: -1, NVer: -1}}}},
	{Name: "F484", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F485", Kind: "struct", Opt: 256, Ver: -1, NVer: -1, Sub: "S486", Fields: []*F{{Name: "F487", Kind: "int", Bits: 24, Opt: 1, Ver: -1, NVer: -1}, {Name: "F488", Kind: "struct", NOpt: 256, Ver: -1, NVer: -1, Sub: "S489", Fields: []*F{{Name: "F490", Kind: "bool", Bits: 1, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"}, {Name: "F491Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1}, {Name: "F491", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F492", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S493", Fields: []*F{{Name: "F494", Kind: "uint", Bits: 48, Ver: -1, NVer: -1}, {Name: "F495On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F495", Kind: "uint", Bits: 24, Ver: -1, NVer: -1, OptDyn: true}, {Name: "F496", Kind: "varint", Ver: 0, NVer: -1}}}}}}}},
	{Name: "F497Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1},
	{Name: "F497", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S499", Fields: []*F{{Name: "A499", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}, {Name: "B499", Kind: "int", Bits: 13, Ver: -1, NVer: -1}, {Name: "C499", Kind: "string", Ver: -1, NVer: -1}}}},
}

func (b *U46) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU46, name, ctx)
}
func (b *U46) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU46, name, ctx)
}
func (b *U46) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU46, name, ctx)
}
func (b *U46) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU46, name, s, left, ctx)
}
func (b *U46) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU46, name, r, left, ctx)
}
func (b *U46) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU46, name, w, ctx)
}

func (*U46) GetType() mp4.BoxType { return mp4.StrToBoxType("u046") }

type U47 struct {
	mp4.AnyTypeBox
	Last    []int32 `mp4:"7,size=24"`
	F507    uint32  `mp4:"5,size=24"`
	F501Len uint16  `mp4:"2,size=16"`
	TailLen uint8   `mp4:"1,size=8"`
	Tail    []uint8 `mp4:"6,size=1,len=dynamic"`
	F501    []*S502 `mp4:"3,len=dynamic"`
	F504    *S505   `mp4:"4"`
}

var specU47 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F501Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F501", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S502", Fields: []*F{{Name: "F503", Kind: "uint", Bits: 16, HookBits: 10, Ver: -1, NVer: -1, Hook: "prefix"}}}}},
	{Name: "F504", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S505", Fields: []*F{{Name: "F506", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}}}},
	{Name: "F507", Kind: "uint", Bits: 24, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 24, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 24, Ver: -1, NVer: -1}},
}

func (b *U47) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU47, name, ctx)
}
func (b *U47) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU47, name, ctx)
}
func (b *U47) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU47, name, ctx)
}
func (b *U47) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU47, name, s, left, ctx)
}
func (b *U47) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU47, name, r, left, ctx)
}
func (b *U47) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU47, name, w, ctx)
}

func (b *U47) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 4, size, ctx)
}

type U48 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F510        string  `mp4:"2,string=c_p"`
	F511        uint64  `mp4:"3,hex,size=64"`
	F512Len     uint16  `mp4:"4,size=8"`
	F512        []Octet `mp4:"5,size=8,len=dynamic"`
	F513Bits    uint8   `mp4:"6,size=8"`
	F513        int64   `mp4:"7,size=dynamic"`
	F514        uint    `mp4:"8,opt=0x4,size=64"`
	Tail        []uint8 `mp4:"9,len=dynamic,size=1"`
}

var specU48 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F510", Kind: "string", Ver: -1, NVer: -1, CP: true},
	{Name: "F511", Kind: "uint", Bits: 64, HookBits: 24, Ver: -1, NVer: -1, Hook: "bytes"},
	{Name: "F512Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F512", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F513Bits", Kind: "uint", Bits: 8, Max: 64, Min: 1, Ver: -1, NVer: -1},
	{Name: "F513", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F514", Kind: "uint", Bits: 64, Opt: 4, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U48) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU48, name, ctx)
}
func (b *U48) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU48, name, ctx)
}
func (b *U48) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU48, name, ctx)
}
func (b *U48) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU48, name, s, left, ctx)
}
func (b *U48) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU48, name, r, left, ctx)
}
func (b *U48) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU48, name, w, ctx)
}

func (*U48) GetType() mp4.BoxType { return mp4.StrToBoxType("u048") }

type U49 struct {
	mp4.Box
	F528On  bool    `mp4:"5,size=8"`
	F522    []uint8 `mp4:"3,size=8,len=5"`
	F530    uint8   `mp4:"9,size=2"`
	F523    [5]S524 `mp4:"4"`
	TailLen uint8   `mp4:"1,size=8"`
	F529    uint32  `mp4:"8,varint,opt=dynamic"`
	F517    []*S518 `mp4:"2,len=5"`
	F528    string  `mp4:"6,opt=dynamic,string"`
	F529On  bool    `mp4:"7,size=8"`
	Tail    []uint8 `mp4:"10,dec,len=dynamic,size=1"`
}

var specU49 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F517", Kind: "slice", Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S518", Fields: []*F{{Name: "F519", Kind: "slice", Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}, {Name: "F520", Kind: "int", Bits: 16, Ver: -1, NVer: -1}, {Name: "F521", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}}}}}},
	{Name: "F522", Kind: "slice", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F523", Kind: "array", Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S524", Fields: []*F{{Name: "F525", Kind: "varint", Ver: -1, NVer: -1}, {Name: "F526", Kind: "bool", Bits: 3, Ver: -1, NVer: -1}, {Name: "F527", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}}}},
	{Name: "F528On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F528", Kind: "string", Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F529On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F529", Kind: "varint", Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F530", Kind: "uint", Bits: 2, HookBits: 14, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U49) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU49, name, ctx)
}
func (b *U49) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU49, name, ctx)
}
func (b *U49) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU49, name, ctx)
}
func (b *U49) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU49, name, s, left, ctx)
}
func (b *U49) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU49, name, r, left, ctx)
}
func (b *U49) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU49, name, w, ctx)
}

func (*U49) GetType() mp4.BoxType { return mp4.StrToBoxType("u049") }
func (b *U49) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 4, size, ctx)
}

type U50 struct {
	mp4.Box
	TailLen  uint8    `mp4:"1,size=8"`
	F533Len  uint16   `mp4:"2,size=8"`
	F533     []Octet  `mp4:"3,size=8,len=dynamic"`
	F534     int64    `mp4:"4,size=48"`
	F535Len  uint16   `mp4:"5,size=8"`
	F535     []uint64 `mp4:"6,dec,size=43,len=dynamic"`
	F536Len  uint16   `mp4:"7,size=16"`
	F536     []*S537  `mp4:"8,len=dynamic"`
	F540     uint32   `mp4:"9,varint"`
	F541Bits uint8    `mp4:"10,size=8"`
	F541     uint64   `mp4:"11,size=dynamic"`
	Tail     []uint8  `mp4:"12,dec,size=1,len=dynamic"`
	Last     string   `mp4:"13,string=c_p"`
}

var specU50 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F533Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F533", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F534", Kind: "int", Bits: 48, Ver: -1, NVer: -1},
	{Name: "F535Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F535", Kind: "slice", Bits: 43, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 43, Ver: -1, NVer: -1}},
	{Name: "F536Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F536", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S537", Fields: []*F{{Name: "F538", Kind: "bool", Bits: 7, Ver: -1, NVer: -1}, {Name: "F539", Kind: "slice", Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}}}}}},
	{Name: "F540", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F541Bits", Kind: "uint", Bits: 8, Max: 64, Min: 1, Ver: -1, NVer: -1},
	{Name: "F541", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, CP: true},
}

func (b *U50) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU50, name, ctx)
}
func (b *U50) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU50, name, ctx)
}
func (b *U50) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU50, name, ctx)
}
func (b *U50) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU50, name, s, left, ctx)
}
func (b *U50) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU50, name, r, left, ctx)
}
func (b *U50) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU50, name, w, ctx)
}

func (*U50) GetType() mp4.BoxType { return mp4.StrToBoxType("u050") }
func (b *U50) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 4, size, ctx)
}

type U51 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F544        bool     `mp4:"2,size=16"`
	F545        [1]S546  `mp4:"3,opt=0x100"`
	F548        [4]Octet `mp4:"4,ver=1,size=8"`
	F549Len     uint16   `mp4:"5,size=8"`
	F549        []int16  `mp4:"6,hex,len=dynamic,size=2"`
	Tail        []uint8  `mp4:"7,size=1,len=dynamic"`
	Last        string   `mp4:"8,boxstring"`
}

var specU51 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F544", Kind: "bool", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F545", Kind: "array", Len: 1, Opt: 256, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S546", Fields: []*F{{Name: "F547", Kind: "varint", Ver: -1, NVer: 1}}}},
	{Name: "F548", Kind: "array", Bits: 8, Len: 4, Ver: 1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F549Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F549", Kind: "slice", Bits: 2, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 2, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, Box: true},
}

func (b *U51) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU51, name, ctx)
}
func (b *U51) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU51, name, ctx)
}
func (b *U51) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU51, name, ctx)
}
func (b *U51) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU51, name, s, left, ctx)
}
func (b *U51) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU51, name, r, left, ctx)
}
func (b *U51) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU51, name, w, ctx)
}

func (*U51) GetType() mp4.BoxType { return mp4.StrToBoxType("u051") }

type U52 struct {
	mp4.FullBox `mp4:"0,extend"`
	F552        S553     `mp4:"3,size=dynamic"`
	F552Bits    uint8    `mp4:"2,size=8"`
	F554        []string `mp4:"4,len=1,string"`
	F559        int64    `mp4:"7,hex,size=29"`
	F560Bits    uint8    `mp4:"8,size=8"`
	F556        *S557    `mp4:"6"`
	F555        bool     `mp4:"5,size=1"`
	Last        []byte   `mp4:"11,size=8"`
	Tail        []uint8  `mp4:"10,len=dynamic,size=1"`
	TailLen     uint8    `mp4:"1,hex,size=8"`
	F560        uint32   `mp4:"9,size=dynamic"`
}

var specU52 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F552Bits", Kind: "uint", Bits: 8, Max: 15, Min: 1, Ver: -1, NVer: -1, Times8: true},
	{Name: "F552", Kind: "struct", Ver: -1, NVer: -1, DynBits: true, Sub: "S553", Fields: []*F{{Name: "A553", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}, {Name: "B553", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}},
	{Name: "F554", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "F555", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
	{Name: "F556", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S557", Fields: []*F{{Name: "F558", Kind: "uint", Bits: 32, Ver: -1, NVer: -1}}}},
	{Name: "F559", Kind: "int", Bits: 29, HookBits: 15, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F560Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F560", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U52) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU52, name, ctx)
}
func (b *U52) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU52, name, ctx)
}
func (b *U52) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU52, name, ctx)
}
func (b *U52) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU52, name, s, left, ctx)
}
func (b *U52) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU52, name, r, left, ctx)
}
func (b *U52) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU52, name, w, ctx)
}

func (*U52) GetType() mp4.BoxType { return mp4.StrToBoxType("u052") }

type U53 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F563Bits    uint8    `mp4:"2,size=8"`
	F563        uint32   `mp4:"3,size=dynamic"`
	F564        int32    `mp4:"4,size=16"`
	F565        [3]uint8 `mp4:"5,size=8,ver=0"`
	Tail        []uint8  `mp4:"6,len=dynamic,size=1"`
	Last        []int32  `mp4:"7,hex,size=24"`
}

var specU53 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F563Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F563", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F564", Kind: "int", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F565", Kind: "array", Bits: 8, Len: 3, Ver: 0, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 24, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 24, Ver: -1, NVer: -1}},
}

func (b *U53) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU53, name, ctx)
}
func (b *U53) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU53, name, ctx)
}
func (b *U53) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU53, name, ctx)
}
func (b *U53) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU53, name, s, left, ctx)
}
func (b *U53) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU53, name, r, left, ctx)
}
func (b *U53) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU53, name, w, ctx)
}

func (*U53) GetType() mp4.BoxType { return mp4.StrToBoxType("u053") }

type U54 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F568        *S569    `mp4:"2"`
	F572        [2]Octet `mp4:"3,size=8,nver=1"`
	F573        bool     `mp4:"4,nver=1,size=16"`
	F574        *S575    `mp4:"5"`
	F580        uint64   `mp4:"6,size=64,opt=0x4"`
	F581        uint64   `mp4:"7,size=48,ver=2"`
	Tail        []uint8  `mp4:"8,len=dynamic,size=1"`
}

var specU54 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F568", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S569", Fields: []*F{{Name: "F570", Kind: "int", Bits: 24, Ver: -1, NVer: -1}, {Name: "F571", Kind: "int", Bits: 48, Ver: -1, NVer: -1}}}},
	{Name: "F572", Kind: "array", Bits: 8, Len: 2, Ver: -1, NVer: 1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F573", Kind: "bool", Bits: 16, Ver: -1, NVer: 1},
	{Name: "F574", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S575", Fields: []*F{{Name: "F576", Kind: "uint", Bits: 32, Ver: -1, NVer: -1}, {Name: "F577", Kind: "struct", Sized: 40, Ver: -1, NVer: -1, Sub: "S578", Fields: []*F{{Name: "A578", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B578", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}}}}, {Name: "F579", Kind: "uint", Bits: 64, Opt: 1, Ver: -1, NVer: -1}}}},
	{Name: "F580", Kind: "uint", Bits: 64, Opt: 4, HookBits: 16, Ver: -1, NVer: -1, Hook: "bytes"},
	{Name: "F581", Kind: "uint", Bits: 48, HookBits: 16, Ver: 2, NVer: -1, Hook: "bytes"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U54) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU54, name, ctx)
}
func (b *U54) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU54, name, ctx)
}
func (b *U54) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU54, name, ctx)
}
func (b *U54) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU54, name, s, left, ctx)
}
func (b *U54) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU54, name, r, left, ctx)
}
func (b *U54) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU54, name, w, ctx)
}

func (*U54) GetType() mp4.BoxType { return mp4.StrToBoxType("u054") }

type U55 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F584On      bool    `mp4:"2,size=8"`
	F584        []uint8 `mp4:"3,len=0,size=8,opt=dynamic"`
	Tail        []uint8 `mp4:"4,len=dynamic,size=1"`
	Last        []S586  `mp4:"5,size=40"`
}

var specU55 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F584On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F584", Kind: "slice", Bits: 8, Ver: -1, NVer: -1, OptDyn: true, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Sized: 40, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Sized: 40, Ver: -1, NVer: -1, Sub: "S586", Fields: []*F{{Name: "A586", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B586", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
}

func (b *U55) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU55, name, ctx)
}
func (b *U55) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU55, name, ctx)
}
func (b *U55) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU55, name, ctx)
}
func (b *U55) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU55, name, s, left, ctx)
}
func (b *U55) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU55, name, r, left, ctx)
}
func (b *U55) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU55, name, w, ctx)
}

func (*U55) GetType() mp4.BoxType { return mp4.StrToBoxType("u055") }

type U56 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F588        uint64  `mp4:"2,size=32"`
	F589Bits    uint8   `mp4:"3,size=8"`
	F589        int32   `mp4:"4,size=dynamic"`
	F590        S591    `mp4:"5"`
	F593        uint    `mp4:"6,size=48"`
	F594        int16   `mp4:"7,opt=0x4,size=16"`
	Tail        []uint8 `mp4:"8,len=dynamic,size=1"`
	Last        string  `mp4:"9,string"`
}

var specU56 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F588", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F589Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F589", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F590", Kind: "struct", Ver: -1, NVer: -1, Sub: "S591", Fields: []*F{{Name: "F592", Kind: "uint", Bits: 48, Ver: -1, NVer: 1}}},
	{Name: "F593", Kind: "uint", Bits: 48, Ver: -1, NVer: -1},
	{Name: "F594", Kind: "int", Bits: 16, Opt: 4, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1},
}

func (b *U56) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU56, name, ctx)
}
func (b *U56) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU56, name, ctx)
}
func (b *U56) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU56, name, ctx)
}
func (b *U56) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU56, name, s, left, ctx)
}
func (b *U56) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU56, name, r, left, ctx)
}
func (b *U56) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU56, name, w, ctx)
}

func (*U56) GetType() mp4.BoxType { return mp4.StrToBoxType("u056") }

type U57 struct {
	mp4.FullBox `mp4:"0,extend"`
	Tail        []uint8 `mp4:"4,size=1,len=dynamic"`
	TailLen     uint8   `mp4:"1,size=8"`
	F597        S598    `mp4:"3,size=dynamic"`
	F597Bits    uint8   `mp4:"2,size=8"`
	Last        []S600  `mp4:"5,size=40"`
}

var specU57 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F597Bits", Kind: "uint", Bits: 8, Max: 15, Min: 1, Ver: -1, NVer: -1, Times8: true},
	{Name: "F597", Kind: "struct", Ver: -1, NVer: -1, DynBits: true, Sub: "S598", Fields: []*F{{Name: "A598", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}, {Name: "B598", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Sized: 40, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Sized: 40, Ver: -1, NVer: -1, Sub: "S600", Fields: []*F{{Name: "A600", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B600", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
}

func (b *U57) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU57, name, ctx)
}
func (b *U57) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU57, name, ctx)
}
func (b *U57) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU57, name, ctx)
}
func (b *U57) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU57, name, s, left, ctx)
}
func (b *U57) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU57, name, r, left, ctx)
}
func (b *U57) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU57, name, w, ctx)
}

func (*U57) GetType() mp4.BoxType { return mp4.StrToBoxType("u057") }

type U58 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F602        [5]uint8 `mp4:"2,size=8"`
	F603        uint8    `mp4:"3,size=8"`
	F604        uint16   `mp4:"4,size=1"`
	F605On      bool     `mp4:"5,size=8"`
	F605        uint8    `mp4:"6,size=8,hex,opt=dynamic"`
	Tail        []uint8  `mp4:"7,len=dynamic,size=1"`
	Last        []Octet  `mp4:"8,size=8"`
}

var specU58 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F602", Kind: "array", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F603", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F604", Kind: "uint", Bits: 1, Ver: -1, NVer: -1},
	{Name: "F605On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F605", Kind: "uint", Bits: 8, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U58) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU58, name, ctx)
}
func (b *U58) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU58, name, ctx)
}
func (b *U58) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU58, name, ctx)
}
func (b *U58) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU58, name, s, left, ctx)
}
func (b *U58) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU58, name, r, left, ctx)
}
func (b *U58) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU58, name, w, ctx)
}

func (*U58) GetType() mp4.BoxType { return mp4.StrToBoxType("u058") }

type U59 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F608        [3]int32 `mp4:"2,size=6"`
	Tail        []uint8  `mp4:"3,size=1,len=dynamic"`
	Last        []int32  `mp4:"4,size=24"`
}

var specU59 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F608", Kind: "array", Bits: 6, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 6, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 24, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 24, Ver: -1, NVer: -1}},
}

func (b *U59) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU59, name, ctx)
}
func (b *U59) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU59, name, ctx)
}
func (b *U59) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU59, name, ctx)
}
func (b *U59) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU59, name, s, left, ctx)
}
func (b *U59) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU59, name, r, left, ctx)
}
func (b *U59) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU59, name, w, ctx)
}

func (*U59) GetType() mp4.BoxType { return mp4.StrToBoxType("u059") }

type U60 struct {
	mp4.FullBox `mp4:"0,extend"`
	Tail        []uint8 `mp4:"4,len=dynamic,size=1"`
	TailLen     uint8   `mp4:"1,size=8"`
	F612        int8    `mp4:"3,hex,size=7"`
	F611        string  `mp4:"2,string,nopt=0x100"`
}

var specU60 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F611", Kind: "string", NOpt: 256, Ver: -1, NVer: -1},
	{Name: "F612", Kind: "int", Bits: 7, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U60) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU60, name, ctx)
}
func (b *U60) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU60, name, ctx)
}
func (b *U60) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU60, name, ctx)
}
func (b *U60) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU60, name, s, left, ctx)
}
func (b *U60) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU60, name, r, left, ctx)
}
func (b *U60) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU60, name, w, ctx)
}

func (*U60) GetType() mp4.BoxType { return mp4.StrToBoxType("u060") }

type U61 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F615        uint32  `mp4:"2,ver=2,size=5"`
	F616        int32   `mp4:"3,size=24"`
	F617Len     uint16  `mp4:"4,size=16"`
	F617        []uint8 `mp4:"5,size=8,len=dynamic"`
	F618On      bool    `mp4:"6,size=8"`
	F618        []Octet `mp4:"7,opt=dynamic,len=0,size=8"`
	F619        []uint8 `mp4:"8,size=8,len=0,ver=2"`
	Tail        []uint8 `mp4:"9,size=1,len=dynamic"`
	Last        string  `mp4:"10,boxstring"`
}

var specU61 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F615", Kind: "uint", Bits: 5, Ver: 2, NVer: -1},
	{Name: "F616", Kind: "int", Bits: 24, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F617Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F617", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F618On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F618", Kind: "slice", Bits: 8, Ver: -1, NVer: -1, OptDyn: true, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F619", Kind: "slice", Bits: 8, Ver: 2, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, Box: true},
}

func (b *U61) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU61, name, ctx)
}
func (b *U61) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU61, name, ctx)
}
func (b *U61) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU61, name, ctx)
}
func (b *U61) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU61, name, s, left, ctx)
}
func (b *U61) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU61, name, r, left, ctx)
}
func (b *U61) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU61, name, w, ctx)
}

func (*U61) GetType() mp4.BoxType { return mp4.StrToBoxType("u061") }

type U62 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8,hex"`
	F622        uint16  `mp4:"2,size=16"`
	F623        *S624   `mp4:"3"`
	Tail        []uint8 `mp4:"4,size=1,len=dynamic"`
}

var specU62 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F622", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F623", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S624", Fields: []*F{{Name: "F625", Kind: "slice", Len: 6, Ver: 0, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S626", Fields: []*F{{Name: "F627", Kind: "uint", Bits: 60, NOpt: 4, Ver: -1, NVer: -1}, {Name: "F628", Kind: "slice", Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}}}}, {Name: "F629", Kind: "slice", Len: 1, NOpt: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S630", Fields: []*F{{Name: "F631", Kind: "slice", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F632", Kind: "uint", Bits: 64, Ver: -1, NVer: -1}}}}, {Name: "F633", Kind: "int", Bits: 16, Ver: -1, NVer: -1}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U62) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU62, name, ctx)
}
func (b *U62) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU62, name, ctx)
}
func (b *U62) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU62, name, ctx)
}
func (b *U62) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU62, name, s, left, ctx)
}
func (b *U62) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU62, name, r, left, ctx)
}
func (b *U62) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU62, name, w, ctx)
}

func (*U62) GetType() mp4.BoxType { return mp4.StrToBoxType("u062") }

type U63 struct {
	mp4.Box
	TailLen uint8    `mp4:"1,size=8"`
	F636    []uint64 `mp4:"2,size=48,len=2"`
	F637    int16    `mp4:"3,size=5"`
	F638    *S639    `mp4:"4"`
	F642On  bool     `mp4:"5,size=8"`
	F642    bool     `mp4:"6,size=16,opt=dynamic"`
	F643    bool     `mp4:"7,size=1"`
	Tail    []uint8  `mp4:"8,size=1,len=dynamic"`
	Last    []Octet  `mp4:"9,size=8"`
}

var specU63 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F636", Kind: "slice", Bits: 48, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 48, Ver: -1, NVer: -1}},
	{Name: "F637", Kind: "int", Bits: 5, Ver: -1, NVer: -1, Hook: "peek"},
	{Name: "F638", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S639", Fields: []*F{{Name: "F640", Kind: "int", Bits: 6, Ver: -1, NVer: -1}, {Name: "F641", Kind: "string", Ver: -1, NVer: -1}}}},
	{Name: "F642On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F642", Kind: "bool", Bits: 16, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F643", Kind: "bool", Bits: 1, HookBits: 6, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U63) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU63, name, ctx)
}
func (b *U63) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU63, name, ctx)
}
func (b *U63) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU63, name, ctx)
}
func (b *U63) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU63, name, s, left, ctx)
}
func (b *U63) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU63, name, r, left, ctx)
}
func (b *U63) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU63, name, w, ctx)
}

func (*U63) GetType() mp4.BoxType { return mp4.StrToBoxType("u063") }
func (b *U63) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 4, size, ctx)
}

type U64 struct {
	mp4.FullBox `mp4:"0,extend"`
	F647        *S648   `mp4:"4"`
	TailLen     uint8   `mp4:"1,size=8"`
	F659Bits    uint8   `mp4:"5,size=8"`
	F659        int8    `mp4:"6,size=dynamic"`
	F646Bits    uint8   `mp4:"2,dec,size=8"`
	F660        int64   `mp4:"7,size=56,nver=0"`
	F661        uint16  `mp4:"8,opt=0x1,size=5"`
	F646        uint8   `mp4:"3,size=dynamic"`
	Last        []S663  `mp4:"10"`
	Tail        []uint8 `mp4:"9,size=1,len=dynamic"`
}

var specU64 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F646Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1},
	{Name: "F646", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F647", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S648", Fields: []*F{{Name: "F649", Kind: "uint", Bits: 24, Ver: 0, NVer: -1}, {Name: "F650", Kind: "struct", Ver: -1, NVer: -1, Sub: "S651", Fields: []*F{{Name: "F652", Kind: "slice", Opt: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S653", Fields: []*F{{Name: "F654", Kind: "int", Bits: 26, Ver: -1, NVer: -1}, {Name: "F655", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}}}}, {Name: "F656", Kind: "bool", Bits: 16, Ver: -1, NVer: -1}, {Name: "F657", Kind: "bool", Bits: 16, Ver: 2, NVer: -1}}}, {Name: "F658", Kind: "int", Bits: 32, Ver: -1, NVer: -1}}}},
	{Name: "F659Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1},
	{Name: "F659", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F660", Kind: "int", Bits: 56, Ver: -1, NVer: 0},
	{Name: "F661", Kind: "uint", Bits: 5, Opt: 1, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S663", Fields: []*F{{Name: "A663", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}, {Name: "B663", Kind: "int", Bits: 13, Ver: -1, NVer: -1}, {Name: "C663", Kind: "string", Ver: -1, NVer: -1}}}},
}

func (b *U64) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU64, name, ctx)
}
func (b *U64) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU64, name, ctx)
}
func (b *U64) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU64, name, ctx)
}
func (b *U64) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU64, name, s, left, ctx)
}
func (b *U64) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU64, name, r, left, ctx)
}
func (b *U64) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU64, name, w, ctx)
}

func (*U64) GetType() mp4.BoxType { return mp4.StrToBoxType("u064") }

type U65 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F668        bool    `mp4:"6,size=8"`
	F665        uint8   `mp4:"2,nopt=0x4,size=2"`
	F666        string  `mp4:"4,string,opt=dynamic"`
	F666On      bool    `mp4:"3,size=8"`
	F667        uint32  `mp4:"5,varint"`
	Tail        []uint8 `mp4:"7,size=1,len=dynamic"`
	Last        string  `mp4:"8,string"`
}

var specU65 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F665", Kind: "uint", Bits: 2, NOpt: 4, Ver: -1, NVer: -1},
	{Name: "F666On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F666", Kind: "string", Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F667", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F668", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1},
}

func (b *U65) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU65, name, ctx)
}
func (b *U65) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU65, name, ctx)
}
func (b *U65) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU65, name, ctx)
}
func (b *U65) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU65, name, s, left, ctx)
}
func (b *U65) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU65, name, r, left, ctx)
}
func (b *U65) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU65, name, w, ctx)
}

func (*U65) GetType() mp4.BoxType { return mp4.StrToBoxType("u065") }

type U66 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F671        uint64   `mp4:"2,size=24"`
	F672        uint64   `mp4:"3,size=64"`
	F673        S674     `mp4:"4,size=56"`
	F675On      bool     `mp4:"5,size=8"`
	F675        bool     `mp4:"6,opt=dynamic,size=8"`
	Tail        []uint8  `mp4:"7,len=dynamic,size=1"`
	Last        []uint32 `mp4:"8,varint"`
}

var specU66 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F671", Kind: "uint", Bits: 24, Ver: -1, NVer: -1},
	{Name: "F672", Kind: "uint", Bits: 64, HookBits: 64, Ver: -1, NVer: -1, Hook: "override"},
	{Name: "F673", Kind: "struct", Sized: 56, Ver: -1, NVer: -1, Sub: "S674", Fields: []*F{{Name: "A674", Kind: "uint", Bits: 12, Ver: -1, NVer: -1}, {Name: "B674", Kind: "slice", Bits: 1, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}}}},
	{Name: "F675On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F675", Kind: "bool", Bits: 8, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
}

func (b *U66) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU66, name, ctx)
}
func (b *U66) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU66, name, ctx)
}
func (b *U66) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU66, name, ctx)
}
func (b *U66) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU66, name, s, left, ctx)
}
func (b *U66) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU66, name, r, left, ctx)
}
func (b *U66) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU66, name, w, ctx)
}

func (*U66) GetType() mp4.BoxType { return mp4.StrToBoxType("u066") }

type U67 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F678        uint64  `mp4:"2,size=48"`
	F679        bool    `mp4:"3,size=21"`
	F680        int     `mp4:"4,size=48"`
	F681        []uint8 `mp4:"5,len=3,size=8"`
	Tail        []uint8 `mp4:"6,size=1,len=dynamic"`
	Last        []uint8 `mp4:"7,size=1"`
}

var specU67 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F678", Kind: "uint", Bits: 48, Ver: -1, NVer: -1},
	{Name: "F679", Kind: "bool", Bits: 21, Ver: -1, NVer: -1},
	{Name: "F680", Kind: "int", Bits: 48, Ver: -1, NVer: -1},
	{Name: "F681", Kind: "slice", Bits: 8, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 1, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U67) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU67, name, ctx)
}
func (b *U67) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU67, name, ctx)
}
func (b *U67) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU67, name, ctx)
}
func (b *U67) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU67, name, s, left, ctx)
}
func (b *U67) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU67, name, r, left, ctx)
}
func (b *U67) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU67, name, w, ctx)
}

func (*U67) GetType() mp4.BoxType { return mp4.StrToBoxType("u067") }

type U68 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F684        string  `mp4:"2,nopt=0x1,string"`
	F685        string  `mp4:"3,string=c_p"`
	F686        []S687  `mp4:"4,len=6"`
	Tail        []uint8 `mp4:"5,hex,size=1,len=dynamic"`
	Last        []int32 `mp4:"6,size=24"`
}

var specU68 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F684", Kind: "string", NOpt: 1, Ver: -1, NVer: -1},
	{Name: "F685", Kind: "string", Ver: -1, NVer: -1, CP: true},
	{Name: "F686", Kind: "slice", Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S687", Fields: []*F{{Name: "F688", Kind: "string", Ver: -1, NVer: -1}, {Name: "F689", Kind: "slice", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 24, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 24, Ver: -1, NVer: -1}},
}

func (b *U68) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU68, name, ctx)
}
func (b *U68) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU68, name, ctx)
}
func (b *U68) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU68, name, ctx)
}
func (b *U68) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU68, name, s, left, ctx)
}
func (b *U68) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU68, name, r, left, ctx)
}
func (b *U68) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU68, name, w, ctx)
}

func (*U68) GetType() mp4.BoxType { return mp4.StrToBoxType("u068") }

type U69 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F692Len     uint16   `mp4:"2,size=8,hex"`
	F692        []uint32 `mp4:"3,varint,len=dynamic"`
	F693On      bool     `mp4:"4,size=8"`
	F693        []uint8  `mp4:"5,len=5,opt=dynamic,size=8"`
	F694        S695     `mp4:"6,nver=0,size=24"`
	F696Len     uint16   `mp4:"7,size=16"`
	F696        []uint8  `mp4:"8,size=8,len=dynamic"`
	Tail        []uint8  `mp4:"9,len=dynamic,size=1"`
	Last        []*S698  `mp4:"10"`
}

var specU69 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F692Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F692", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F693On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F693", Kind: "slice", Bits: 8, Len: 5, Ver: -1, NVer: -1, OptDyn: true, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F694", Kind: "struct", Sized: 24, Ver: -1, NVer: 0, Sub: "S695", Fields: []*F{{Name: "A695", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}, {Name: "B695", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}},
	{Name: "F696Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F696", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S698", Fields: []*F{{Name: "A698", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}, {Name: "B698", Kind: "int", Bits: 13, Ver: -1, NVer: -1}, {Name: "C698", Kind: "string", Ver: -1, NVer: -1}}}}},
}

func (b *U69) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU69, name, ctx)
}
func (b *U69) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU69, name, ctx)
}
func (b *U69) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU69, name, ctx)
}
func (b *U69) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU69, name, s, left, ctx)
}
func (b *U69) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU69, name, r, left, ctx)
}
func (b *U69) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU69, name, w, ctx)
}

func (*U69) GetType() mp4.BoxType { return mp4.StrToBoxType("u069") }

type U70 struct {
	mp4.FullBox `mp4:"0,extend"`
	Last        []uint32 `mp4:"4,varint"`
	F700        *S701    `mp4:"2"`
	Tail        []uint8  `mp4:"3,size=1,len=dynamic"`
	TailLen     uint8    `mp4:"1,size=8"`
}

var specU70 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F700", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S701", Fields: []*F{{Name: "F702", Kind: "int", Bits: 48, Opt: 2, Ver: -1, NVer: -1}, {Name: "F703", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F704", Kind: "string", Opt: 256, Ver: -1, NVer: -1}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
}

func (b *U70) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU70, name, ctx)
}
func (b *U70) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU70, name, ctx)
}
func (b *U70) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU70, name, ctx)
}
func (b *U70) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU70, name, s, left, ctx)
}
func (b *U70) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU70, name, r, left, ctx)
}
func (b *U70) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU70, name, w, ctx)
}

func (*U70) GetType() mp4.BoxType { return mp4.StrToBoxType("u070") }

type U71 struct {
	mp4.AnyTypeBox
	F709    *S710   `mp4:"4"`
	Tail    []uint8 `mp4:"5,size=1,len=dynamic"`
	F708    uint32  `mp4:"3,varint"`
	TailLen uint8   `mp4:"1,size=8,dec"`
	Last    []Octet `mp4:"6,size=8,dec"`
	F707    uint64  `mp4:"2,size=32"`
}

var specU71 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F707", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F708", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F709", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S710", Fields: []*F{{Name: "F711", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U71) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU71, name, ctx)
}
func (b *U71) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU71, name, ctx)
}
func (b *U71) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU71, name, ctx)
}
func (b *U71) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU71, name, s, left, ctx)
}
func (b *U71) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU71, name, r, left, ctx)
}
func (b *U71) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU71, name, w, ctx)
}

type U72 struct {
	mp4.FullBox `mp4:"0,extend"`
	F719Len     uint16   `mp4:"5,size=8"`
	Last        []Octet  `mp4:"8,dec,size=8"`
	TailLen     uint8    `mp4:"1,size=8,hex"`
	F715        *S716    `mp4:"4"`
	F714Len     uint16   `mp4:"2,size=8"`
	F714        []uint32 `mp4:"3,varint,len=dynamic"`
	F719        []string `mp4:"6,len=dynamic,string"`
	Tail        []uint8  `mp4:"7,size=1,len=dynamic"`
}

var specU72 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F714Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F714", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F715", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S716", Fields: []*F{{Name: "F717", Kind: "uint", Bits: 64, Ver: -1, NVer: 2}, {Name: "F718", Kind: "uint", Bits: 32, Ver: 0, NVer: -1}}}},
	{Name: "F719Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F719", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U72) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU72, name, ctx)
}
func (b *U72) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU72, name, ctx)
}
func (b *U72) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU72, name, ctx)
}
func (b *U72) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU72, name, s, left, ctx)
}
func (b *U72) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU72, name, r, left, ctx)
}
func (b *U72) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU72, name, w, ctx)
}

func (*U72) GetType() mp4.BoxType { return mp4.StrToBoxType("u072") }

type U73 struct {
	mp4.Box
	TailLen uint8   `mp4:"1,size=8"`
	F722    bool    `mp4:"2,size=1"`
	F723    *S724   `mp4:"3"`
	F732On  bool    `mp4:"4,size=8"`
	F732    int64   `mp4:"5,opt=dynamic,size=48"`
	F733    *S734   `mp4:"6"`
	F737    bool    `mp4:"7,size=18"`
	Tail    []uint8 `mp4:"8,size=1,len=dynamic"`
	Last    string  `mp4:"9,string"`
}

var specU73 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F722", Kind: "bool", Bits: 1, HookBits: 2, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F723", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S724", Fields: []*F{{Name: "F725", Kind: "struct", Ver: -1, NVer: -1, Sub: "S726", Fields: []*F{{Name: "F727", Kind: "string", Ver: -1, NVer: -1}, {Name: "F728", Kind: "uint", Bits: 48, Ver: -1, NVer: -1}, {Name: "F729", Kind: "uint", Bits: 41, Ver: -1, NVer: -1}}}, {Name: "F730", Kind: "uint", Bits: 48, Ver: -1, NVer: -1}, {Name: "F731", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}}}},
	{Name: "F732On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F732", Kind: "int", Bits: 48, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F733", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S734", Fields: []*F{{Name: "F735", Kind: "array", Bits: 8, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F736", Kind: "uint", Bits: 16, HookBits: 13, Ver: -1, NVer: -1, Hook: "prefix"}}}},
	{Name: "F737", Kind: "bool", Bits: 18, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1},
}

func (b *U73) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU73, name, ctx)
}
func (b *U73) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU73, name, ctx)
}
func (b *U73) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU73, name, ctx)
}
func (b *U73) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU73, name, s, left, ctx)
}
func (b *U73) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU73, name, r, left, ctx)
}
func (b *U73) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU73, name, w, ctx)
}

func (*U73) GetType() mp4.BoxType { return mp4.StrToBoxType("u073") }

type U74 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F740        uint16  `mp4:"2,dec,size=16"`
	Tail        []uint8 `mp4:"3,size=1,len=dynamic"`
	Last        []S742  `mp4:"4"`
}

var specU74 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F740", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S742", Fields: []*F{{Name: "A742", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}, {Name: "B742", Kind: "int", Bits: 13, Ver: -1, NVer: -1}, {Name: "C742", Kind: "string", Ver: -1, NVer: -1}}}},
}

func (b *U74) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU74, name, ctx)
}
func (b *U74) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU74, name, ctx)
}
func (b *U74) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU74, name, ctx)
}
func (b *U74) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU74, name, s, left, ctx)
}
func (b *U74) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU74, name, r, left, ctx)
}
func (b *U74) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU74, name, w, ctx)
}

func (*U74) GetType() mp4.BoxType { return mp4.StrToBoxType("u074") }

type U75 struct {
	mp4.Box
	Last    []S768  `mp4:"9"`
	F744    *S745   `mp4:"2"`
	F751    *S752   `mp4:"4"`
	F750    bool    `mp4:"3,size=1"`
	F766    uint16  `mp4:"7,size=8"`
	TailLen uint8   `mp4:"1,size=8"`
	Tail    []uint8 `mp4:"8,size=1,len=dynamic"`
	F762    int     `mp4:"5,size=48"`
	F763    *S764   `mp4:"6"`
}

var specU75 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F744", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S745", Fields: []*F{{Name: "F746", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "F747", Kind: "struct", Sized: 24, Ver: -1, NVer: -1, Sub: "S748", Fields: []*F{{Name: "A748", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}, {Name: "B748", Kind: "slice", Bits: 2, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}}}}, {Name: "F749", Kind: "uint", Bits: 32, Ver: -1, NVer: -1}}}},
	{Name: "F750", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
	{Name: "F751", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S752", Fields: []*F{{Name: "F753", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S754", Fields: []*F{{Name: "F755", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S756", Fields: []*F{{Name: "F757", Kind: "int", Bits: 24, Ver: -1, NVer: -1}, {Name: "F758", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}}}}, {Name: "F759", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}, {Name: "F760", Kind: "uint", Bits: 6, Ver: -1, NVer: -1}}}}, {Name: "F761", Kind: "slice", Bits: 24, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 24, Ver: -1, NVer: -1}}}}},
	{Name: "F762", Kind: "int", Bits: 48, Ver: -1, NVer: -1},
	{Name: "F763", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S764", Fields: []*F{{Name: "F765", Kind: "string", Ver: -1, NVer: -1}}}},
	{Name: "F766", Kind: "uint", Bits: 8, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S768", Fields: []*F{{Name: "A768", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}, {Name: "B768", Kind: "int", Bits: 13, Ver: -1, NVer: -1}, {Name: "C768", Kind: "string", Ver: -1, NVer: -1}}}},
}

func (b *U75) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU75, name, ctx)
}
func (b *U75) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU75, name, ctx)
}
func (b *U75) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU75, name, ctx)
}
func (b *U75) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU75, name, s, left, ctx)
}
func (b *U75) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU75, name, r, left, ctx)
}
func (b *U75) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU75, name, w, ctx)
}

func (*U75) GetType() mp4.BoxType { return mp4.StrToBoxType("u075") }

type U76 struct {
	mp4.Box
	Last    []byte  `mp4:"6,size=8,len=dynamic,hex"`
	TailLen uint8   `mp4:"1,size=8"`
	F781    string  `mp4:"3,string"`
	Tail    []uint8 `mp4:"5,size=1,len=dynamic"`
	F782    bool    `mp4:"4,size=32"`
	F770    *S771   `mp4:"2"`
}

var specU76 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F770", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S771", Fields: []*F{{Name: "F772", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S773", Fields: []*F{{Name: "F774", Kind: "slice", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S775", Fields: []*F{{Name: "F776", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}, {Name: "F777", Kind: "uint", Bits: 24, Ver: -1, NVer: -1}}}}, {Name: "F778", Kind: "slice", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F779", Kind: "uint", Bits: 32, Ver: -1, NVer: -1}}}}, {Name: "F780", Kind: "int", Bits: 16, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"}}}},
	{Name: "F781", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F782", Kind: "bool", Bits: 32, HookBits: 12, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U76) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU76, name, ctx)
}
func (b *U76) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU76, name, ctx)
}
func (b *U76) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU76, name, ctx)
}
func (b *U76) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU76, name, s, left, ctx)
}
func (b *U76) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU76, name, r, left, ctx)
}
func (b *U76) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU76, name, w, ctx)
}

func (*U76) GetType() mp4.BoxType { return mp4.StrToBoxType("u076") }

type U77 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F785        uint8    `mp4:"2,size=6"`
	F786        uint32   `mp4:"3,size=24"`
	F787        []string `mp4:"4,len=6,string"`
	F788        [2]Octet `mp4:"5,size=8,hex"`
	F789        S790     `mp4:"6"`
	Tail        []uint8  `mp4:"7,size=1,len=dynamic"`
	Last        string   `mp4:"8,boxstring"`
}

var specU77 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F785", Kind: "uint", Bits: 6, Ver: -1, NVer: -1},
	{Name: "F786", Kind: "uint", Bits: 24, Ver: -1, NVer: -1},
	{Name: "F787", Kind: "slice", Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "F788", Kind: "array", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F789", Kind: "struct", Ver: -1, NVer: -1, Sub: "S790", Fields: []*F{{Name: "F791", Kind: "array", Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S792", Fields: []*F{{Name: "F793", Kind: "int", Bits: 24, Ver: -1, NVer: -1}, {Name: "F794", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S795", Fields: []*F{{Name: "F796", Kind: "int", Bits: 3, Ver: -1, NVer: -1}}}}, {Name: "F797", Kind: "string", NOpt: 4, Ver: -1, NVer: -1}}}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, Box: true},
}

func (b *U77) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU77, name, ctx)
}
func (b *U77) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU77, name, ctx)
}
func (b *U77) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU77, name, ctx)
}
func (b *U77) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU77, name, s, left, ctx)
}
func (b *U77) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU77, name, r, left, ctx)
}
func (b *U77) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU77, name, w, ctx)
}

func (*U77) GetType() mp4.BoxType { return mp4.StrToBoxType("u077") }

type U78 struct {
	mp4.FullBox `mp4:"0,extend"`
	Tail        []uint8  `mp4:"7,hex,size=1,len=dynamic"`
	TailLen     uint8    `mp4:"1,size=8"`
	F803        int16    `mp4:"3,size=16"`
	F804        S805     `mp4:"4"`
	F807        [3]bool  `mp4:"5,opt=2,size=1"`
	Last        []uint32 `mp4:"8,varint"`
	F800        S801     `mp4:"2"`
	F808        []uint32 `mp4:"6,varint,len=6"`
}

var specU78 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F800", Kind: "struct", Ver: -1, NVer: -1, Sub: "S801", Fields: []*F{{Name: "F802", Kind: "int", Bits: 21, Ver: -1, NVer: -1}}},
	{Name: "F803", Kind: "int", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F804", Kind: "struct", Ver: -1, NVer: -1, Sub: "S805", Fields: []*F{{Name: "F806", Kind: "uint", Bits: 64, Opt: 2, Ver: -1, NVer: -1}}},
	{Name: "F807", Kind: "array", Bits: 1, Len: 3, Opt: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "F808", Kind: "slice", Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
}

func (b *U78) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU78, name, ctx)
}
func (b *U78) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU78, name, ctx)
}
func (b *U78) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU78, name, ctx)
}
func (b *U78) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU78, name, s, left, ctx)
}
func (b *U78) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU78, name, r, left, ctx)
}
func (b *U78) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU78, name, w, ctx)
}

func (*U78) GetType() mp4.BoxType { return mp4.StrToBoxType("u078") }

type U79 struct {
	mp4.FullBox `mp4:"0,extend"`
	Tail        []uint8 `mp4:"3,size=1,len=dynamic"`
	F811        int64   `mp4:"2,size=48,nopt=0x2"`
	TailLen     uint8   `mp4:"1,size=8"`
}

var specU79 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F811", Kind: "int", Bits: 48, NOpt: 2, HookBits: 48, Ver: -1, NVer: -1, Hook: "override"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U79) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU79, name, ctx)
}
func (b *U79) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU79, name, ctx)
}
func (b *U79) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU79, name, ctx)
}
func (b *U79) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU79, name, s, left, ctx)
}
func (b *U79) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU79, name, r, left, ctx)
}
func (b *U79) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU79, name, w, ctx)
}

func (*U79) GetType() mp4.BoxType { return mp4.StrToBoxType("u079") }

type U80 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	Last        []Octet `mp4:"7,size=8"`
	F815        []Octet `mp4:"4,size=8,len=dynamic"`
	F816        uint8   `mp4:"5,size=8"`
	F814        string  `mp4:"2,string=c_p"`
	Tail        []uint8 `mp4:"6,len=dynamic,size=1"`
	F815Len     uint16  `mp4:"3,size=16"`
}

var specU80 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F814", Kind: "string", Ver: -1, NVer: -1, CP: true},
	{Name: "F815Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F815", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F816", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U80) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU80, name, ctx)
}
func (b *U80) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU80, name, ctx)
}
func (b *U80) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU80, name, ctx)
}
func (b *U80) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU80, name, s, left, ctx)
}
func (b *U80) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU80, name, r, left, ctx)
}
func (b *U80) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU80, name, w, ctx)
}

func (*U80) GetType() mp4.BoxType { return mp4.StrToBoxType("u080") }

type U81 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F822Len     uint16  `mp4:"7,size=8"`
	F821        []int32 `mp4:"6,size=8,len=dynamic"`
	Tail        []uint8 `mp4:"9,len=dynamic,dec,size=1"`
	F820Bits    uint8   `mp4:"3,size=8"`
	Last        []S824  `mp4:"10,size=40"`
	F820        int64   `mp4:"4,size=dynamic"`
	F821Len     uint16  `mp4:"5,size=16"`
	F822        []Octet `mp4:"8,len=dynamic,size=8"`
	F819        bool    `mp4:"2,size=35"`
}

var specU81 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F819", Kind: "bool", Bits: 35, Ver: -1, NVer: -1},
	{Name: "F820Bits", Kind: "uint", Bits: 8, Max: 64, Min: 1, Ver: -1, NVer: -1},
	{Name: "F820", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F821Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F821", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F822Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F822", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Sized: 40, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Sized: 40, Ver: -1, NVer: -1, Sub: "S824", Fields: []*F{{Name: "A824", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B824", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
}

func (b *U81) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU81, name, ctx)
}
func (b *U81) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU81, name, ctx)
}
func (b *U81) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU81, name, ctx)
}
func (b *U81) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU81, name, s, left, ctx)
}
func (b *U81) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU81, name, r, left, ctx)
}
func (b *U81) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU81, name, w, ctx)
}

func (*U81) GetType() mp4.BoxType { return mp4.StrToBoxType("u081") }

type U82 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F826        int64   `mp4:"2,size=16,dec"`
	F827        int64   `mp4:"3,size=48"`
	F828        *S829   `mp4:"4"`
	Tail        []uint8 `mp4:"5,size=1,len=dynamic"`
}

var specU82 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F826", Kind: "int", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F827", Kind: "int", Bits: 48, HookBits: 48, Ver: -1, NVer: -1, Hook: "override"},
	{Name: "F828", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S829", Fields: []*F{{Name: "F830", Kind: "bool", Bits: 6, Ver: -1, NVer: -1}, {Name: "F831", Kind: "string", Ver: -1, NVer: -1}, {Name: "F832", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S833", Fields: []*F{{Name: "F834Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1}, {Name: "F834", Kind: "uint", Ver: -1, NVer: -1, DynBits: true}, {Name: "F835Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1}, {Name: "F835", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F836", Kind: "int", Bits: 16, NOpt: 4, Ver: -1, NVer: -1}}}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U82) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU82, name, ctx)
}
func (b *U82) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU82, name, ctx)
}
func (b *U82) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU82, name, ctx)
}
func (b *U82) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU82, name, s, left, ctx)
}
func (b *U82) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU82, name, r, left, ctx)
}
func (b *U82) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU82, name, w, ctx)
}

func (*U82) GetType() mp4.BoxType { return mp4.StrToBoxType("u082") }

type U83 struct {
	mp4.Box
	F839    uint64   `mp4:"2,size=64"`
	Last    []byte   `mp4:"6,size=8,len=dynamic"`
	F840    []string `mp4:"4,string,len=dynamic"`
	TailLen uint8    `mp4:"1,size=8"`
	Tail    []uint8  `mp4:"5,len=dynamic,size=1"`
	F840Len uint16   `mp4:"3,size=16"`
}

var specU83 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F839", Kind: "uint", Bits: 64, Ver: -1, NVer: -1},
	{Name: "F840Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F840", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U83) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU83, name, ctx)
}
func (b *U83) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU83, name, ctx)
}
func (b *U83) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU83, name, ctx)
}
func (b *U83) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU83, name, s, left, ctx)
}
func (b *U83) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU83, name, r, left, ctx)
}
func (b *U83) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU83, name, w, ctx)
}

func (*U83) GetType() mp4.BoxType { return mp4.StrToBoxType("u083") }

type U84 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F843Bits    uint8   `mp4:"2,size=8"`
	F843        int8    `mp4:"3,size=dynamic"`
	F844        uint8   `mp4:"4,size=8"`
	F845Len     uint16  `mp4:"5,size=16"`
	F845        []uint8 `mp4:"6,len=dynamic,size=8"`
	F846        []uint8 `mp4:"7,size=8,ver=1,len=2"`
	F847Len     uint16  `mp4:"8,size=8"`
	F847        []uint8 `mp4:"9,len=dynamic,size=8"`
	F848Len     uint16  `mp4:"10,size=16"`
	F848        []*S849 `mp4:"11,len=dynamic"`
	Tail        []uint8 `mp4:"12,size=1,len=dynamic"`
	Last        string  `mp4:"13,string=c_p"`
}

var specU84 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F843Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1},
	{Name: "F843", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F844", Kind: "uint", Bits: 8, HookBits: 8, Ver: -1, NVer: -1, Hook: "override"},
	{Name: "F845Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F845", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F846", Kind: "slice", Bits: 8, Len: 2, Ver: 1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F847Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F847", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F848Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F848", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S849", Fields: []*F{{Name: "F850", Kind: "int", Bits: 51, Ver: -1, NVer: -1}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, CP: true},
}

func (b *U84) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU84, name, ctx)
}
func (b *U84) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU84, name, ctx)
}
func (b *U84) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU84, name, ctx)
}
func (b *U84) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU84, name, s, left, ctx)
}
func (b *U84) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU84, name, r, left, ctx)
}
func (b *U84) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU84, name, w, ctx)
}

func (*U84) GetType() mp4.BoxType { return mp4.StrToBoxType("u084") }

type U85 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F853        [1]S854 `mp4:"2,nver=2"`
	Tail        []uint8 `mp4:"3,len=dynamic,size=1"`
	Last        string  `mp4:"4,string=c_p"`
}

var specU85 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F853", Kind: "array", Len: 1, Ver: -1, NVer: 2, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S854", Fields: []*F{{Name: "F855", Kind: "array", Bits: 8, Len: 4, Ver: -1, NVer: 0, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, CP: true},
}

func (b *U85) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU85, name, ctx)
}
func (b *U85) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU85, name, ctx)
}
func (b *U85) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU85, name, ctx)
}
func (b *U85) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU85, name, s, left, ctx)
}
func (b *U85) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU85, name, r, left, ctx)
}
func (b *U85) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU85, name, w, ctx)
}

func (*U85) GetType() mp4.BoxType { return mp4.StrToBoxType("u085") }

type U86 struct {
	mp4.Box
	F861    int     `mp4:"6,size=48"`
	F859    string  `mp4:"4,string,opt=dynamic"`
	F859On  bool    `mp4:"3,size=8"`
	Last    []byte  `mp4:"8,size=8"`
	TailLen uint8   `mp4:"1,size=8"`
	Tail    []uint8 `mp4:"7,size=1,len=dynamic"`
	F860    bool    `mp4:"5,size=32"`
	F858    string  `mp4:"2,string=c_p"`
}

var specU86 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F858", Kind: "string", Ver: -1, NVer: -1, CP: true},
	{Name: "F859On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F859", Kind: "string", Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F860", Kind: "bool", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F861", Kind: "int", Bits: 48, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U86) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU86, name, ctx)
}
func (b *U86) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU86, name, ctx)
}
func (b *U86) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU86, name, ctx)
}
func (b *U86) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU86, name, s, left, ctx)
}
func (b *U86) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU86, name, r, left, ctx)
}
func (b *U86) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU86, name, w, ctx)
}

func (*U86) GetType() mp4.BoxType { return mp4.StrToBoxType("u086") }
func (b *U86) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 4, size, ctx)
}

type U87 struct {
	mp4.Box
	F866    uint16  `mp4:"6,size=7"`
	F864On  bool    `mp4:"2,size=8"`
	Last    []*S868 `mp4:"8"`
	F865On  bool    `mp4:"4,size=8"`
	F864    int     `mp4:"3,size=64,opt=dynamic"`
	TailLen uint8   `mp4:"1,dec,size=8"`
	Tail    []uint8 `mp4:"7,len=dynamic,size=1"`
	F865    int64   `mp4:"5,size=59,opt=dynamic,dec"`
}

var specU87 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F864On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F864", Kind: "int", Bits: 64, HookBits: 64, Ver: -1, NVer: -1, OptDyn: true, Hook: "override"},
	{Name: "F865On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F865", Kind: "int", Bits: 59, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F866", Kind: "uint", Bits: 7, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S868", Fields: []*F{{Name: "A868", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}, {Name: "B868", Kind: "int", Bits: 13, Ver: -1, NVer: -1}, {Name: "C868", Kind: "string", Ver: -1, NVer: -1}}}}},
}

func (b *U87) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU87, name, ctx)
}
func (b *U87) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU87, name, ctx)
}
func (b *U87) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU87, name, ctx)
}
func (b *U87) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU87, name, s, left, ctx)
}
func (b *U87) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU87, name, r, left, ctx)
}
func (b *U87) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU87, name, w, ctx)
}

func (*U87) GetType() mp4.BoxType { return mp4.StrToBoxType("u087") }
func (b *U87) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 1, size, ctx)
}

type U88 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F870        uint8   `mp4:"2,size=2"`
	F871        uint64  `mp4:"3,size=32"`
	Tail        []uint8 `mp4:"4,size=1,len=dynamic"`
	Last        []byte  `mp4:"5,size=8"`
}

var specU88 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F870", Kind: "uint", Bits: 2, Ver: -1, NVer: -1},
	{Name: "F871", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U88) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU88, name, ctx)
}
func (b *U88) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU88, name, ctx)
}
func (b *U88) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU88, name, ctx)
}
func (b *U88) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU88, name, s, left, ctx)
}
func (b *U88) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU88, name, r, left, ctx)
}
func (b *U88) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU88, name, w, ctx)
}

func (*U88) GetType() mp4.BoxType { return mp4.StrToBoxType("u088") }

type U89 struct {
	mp4.FullBox `mp4:"0,extend"`
	Tail        []uint8 `mp4:"7,size=1,len=dynamic"`
	Last        []S879  `mp4:"8,size=40"`
	TailLen     uint8   `mp4:"1,size=8"`
	F877        int16   `mp4:"6,opt=0x100,size=16"`
	F875        S876    `mp4:"5,size=dynamic"`
	F874On      bool    `mp4:"2,size=8"`
	F874        uint8   `mp4:"3,opt=dynamic,size=8"`
	F875Bits    uint8   `mp4:"4,size=8"`
}

var specU89 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F874On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F874", Kind: "uint", Bits: 8, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F875Bits", Kind: "uint", Bits: 8, Max: 15, Min: 1, Ver: -1, NVer: -1, Times8: true},
	{Name: "F875", Kind: "struct", Ver: -1, NVer: -1, DynBits: true, Sub: "S876", Fields: []*F{{Name: "A876", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}, {Name: "B876", Kind: "slice", Bits: 1, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}}}},
	{Name: "F877", Kind: "int", Bits: 16, Opt: 256, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Sized: 40, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Sized: 40, Ver: -1, NVer: -1, Sub: "S879", Fields: []*F{{Name: "A879", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B879", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
}

func (b *U89) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU89, name, ctx)
}
func (b *U89) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU89, name, ctx)
}
func (b *U89) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU89, name, ctx)
}
func (b *U89) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU89, name, s, left, ctx)
}
func (b *U89) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU89, name, r, left, ctx)
}
func (b *U89) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU89, name, w, ctx)
}

func (*U89) GetType() mp4.BoxType { return mp4.StrToBoxType("u089") }

type U90 struct {
	mp4.Box
	F883    [2]S884 `mp4:"5"`
	Tail    []uint8 `mp4:"6,size=1,len=dynamic"`
	TailLen uint8   `mp4:"1,size=8"`
	F882Len uint16  `mp4:"3,size=8"`
	Last    []S888  `mp4:"7"`
	F881    uint8   `mp4:"2,size=3,hex"`
	F882    []Octet `mp4:"4,len=dynamic,size=8"`
}

var specU90 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F881", Kind: "uint", Bits: 3, Ver: -1, NVer: -1},
	{Name: "F882Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F882", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F883", Kind: "array", Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S884", Fields: []*F{{Name: "F885", Kind: "varint", Ver: -1, NVer: -1}, {Name: "F886", Kind: "uint", Bits: 48, Ver: -1, NVer: -1}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S888", Fields: []*F{{Name: "A888", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}, {Name: "B888", Kind: "int", Bits: 13, Ver: -1, NVer: -1}, {Name: "C888", Kind: "string", Ver: -1, NVer: -1}}}},
}

func (b *U90) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU90, name, ctx)
}
func (b *U90) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU90, name, ctx)
}
func (b *U90) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU90, name, ctx)
}
func (b *U90) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU90, name, s, left, ctx)
}
func (b *U90) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU90, name, r, left, ctx)
}
func (b *U90) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU90, name, w, ctx)
}

func (*U90) GetType() mp4.BoxType { return mp4.StrToBoxType("u090") }

type U91 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F890        S891     `mp4:"2,nopt=0x1"`
	F893        uint64   `mp4:"3,size=48"`
	F894Bits    uint8    `mp4:"4,size=8"`
	F894        uint32   `mp4:"5,hex,size=dynamic"`
	F895        S896     `mp4:"6"`
	F900        bool     `mp4:"7,size=16,opt=4"`
	Tail        []uint8  `mp4:"8,size=1,len=dynamic"`
	Last        []string `mp4:"9,string"`
}

var specU91 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F890", Kind: "struct", NOpt: 1, Ver: -1, NVer: -1, Sub: "S891", Fields: []*F{{Name: "F892", Kind: "slice", Bits: 9, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 9, Ver: -1, NVer: -1}}}},
	{Name: "F893", Kind: "uint", Bits: 48, Ver: -1, NVer: -1},
	{Name: "F894Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F894", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F895", Kind: "struct", Ver: -1, NVer: -1, Sub: "S896", Fields: []*F{{Name: "F897", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}, {Name: "F898", Kind: "varint", Ver: 2, NVer: -1}, {Name: "F899", Kind: "uint", Bits: 19, Opt: 256, Ver: -1, NVer: -1}}},
	{Name: "F900", Kind: "bool", Bits: 16, Opt: 4, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
}

func (b *U91) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU91, name, ctx)
}
func (b *U91) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU91, name, ctx)
}
func (b *U91) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU91, name, ctx)
}
func (b *U91) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU91, name, s, left, ctx)
}
func (b *U91) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU91, name, r, left, ctx)
}
func (b *U91) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU91, name, w, ctx)
}

func (*U91) GetType() mp4.BoxType { return mp4.StrToBoxType("u091") }

type U92 struct {
	mp4.Box
	F903    string  `mp4:"2,string=c_p"`
	Tail    []uint8 `mp4:"3,size=1,len=dynamic"`
	TailLen uint8   `mp4:"1,size=8"`
}

var specU92 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F903", Kind: "string", Ver: -1, NVer: -1, CP: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U92) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU92, name, ctx)
}
func (b *U92) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU92, name, ctx)
}
func (b *U92) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU92, name, ctx)
}
func (b *U92) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU92, name, s, left, ctx)
}
func (b *U92) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU92, name, r, left, ctx)
}
func (b *U92) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU92, name, w, ctx)
}

func (*U92) GetType() mp4.BoxType { return mp4.StrToBoxType("u092") }

type U93 struct {
	mp4.Box
	F906Len uint16  `mp4:"2,size=16"`
	Tail    []uint8 `mp4:"4,len=dynamic,size=1"`
	Last    []byte  `mp4:"5,size=8,len=dynamic"`
	F906    []uint8 `mp4:"3,len=dynamic,size=8"`
	TailLen uint8   `mp4:"1,size=8"`
}

var specU93 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F906Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F906", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U93) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU93, name, ctx)
}
func (b *U93) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU93, name, ctx)
}
func (b *U93) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU93, name, ctx)
}
func (b *U93) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU93, name, s, left, ctx)
}
func (b *U93) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU93, name, r, left, ctx)
}
func (b *U93) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU93, name, w, ctx)
}

func (*U93) GetType() mp4.BoxType { return mp4.StrToBoxType("u093") }

type U94 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F909Len     uint16  `mp4:"2,size=8"`
	F909        []*S910 `mp4:"3,len=dynamic"`
	F912        string  `mp4:"4,nver=2,string"`
	Tail        []uint8 `mp4:"5,size=1,len=dynamic"`
	Last        string  `mp4:"6,string=c_p"`
}

var specU94 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F909Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F909", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S910", Fields: []*F{{Name: "F911", Kind: "slice", Bits: 8, Len: 4, Opt: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}}},
	{Name: "F912", Kind: "string", Ver: -1, NVer: 2},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, CP: true},
}

func (b *U94) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU94, name, ctx)
}
func (b *U94) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU94, name, ctx)
}
func (b *U94) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU94, name, ctx)
}
func (b *U94) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU94, name, s, left, ctx)
}
func (b *U94) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU94, name, r, left, ctx)
}
func (b *U94) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU94, name, w, ctx)
}

func (*U94) GetType() mp4.BoxType { return mp4.StrToBoxType("u094") }

type U95 struct {
	mp4.Box
	F924    bool     `mp4:"7,size=1"`
	F925    [5]uint8 `mp4:"8,size=8"`
	Last    []*S927  `mp4:"10"`
	F915    []S916   `mp4:"3,len=dynamic"`
	Tail    []uint8  `mp4:"9,size=1,len=dynamic"`
	F923    uint16   `mp4:"6,size=13"`
	F920    []*S921  `mp4:"5,len=dynamic"`
	F920Len uint16   `mp4:"4,size=16"`
	TailLen uint8    `mp4:"1,size=8"`
	F915Len uint16   `mp4:"2,size=16"`
}

var specU95 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F915Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F915", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S916", Fields: []*F{{Name: "F917Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1}, {Name: "F917", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F918", Kind: "array", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}, {Name: "F919On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F919", Kind: "string", Ver: -1, NVer: -1, OptDyn: true}}}},
	{Name: "F920Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F920", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S921", Fields: []*F{{Name: "F922", Kind: "varint", Ver: -1, NVer: -1}}}}},
	{Name: "F923", Kind: "uint", Bits: 13, HookBits: 2, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F924", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
	{Name: "F925", Kind: "array", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S927", Fields: []*F{{Name: "A927", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}, {Name: "B927", Kind: "int", Bits: 13, Ver: -1, NVer: -1}, {Name: "C927", Kind: "string", Ver: -1, NVer: -1}}}}},
}

func (b *U95) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU95, name, ctx)
}
func (b *U95) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU95, name, ctx)
}
func (b *U95) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU95, name, ctx)
}
func (b *U95) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU95, name, s, left, ctx)
}
func (b *U95) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU95, name, r, left, ctx)
}
func (b *U95) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU95, name, w, ctx)
}

func (*U95) GetType() mp4.BoxType { return mp4.StrToBoxType("u095") }

type U96 struct {
	mp4.Box
	F933    uint64   `mp4:"7,size=37"`
	Tail    []uint8  `mp4:"9,size=1,len=dynamic"`
	F930Len uint16   `mp4:"3,size=16"`
	F931    string   `mp4:"5,string=c_p"`
	F934    [2]S935  `mp4:"8"`
	F929    uint16   `mp4:"2,size=16"`
	TailLen uint8    `mp4:"1,size=8,hex"`
	Last    []byte   `mp4:"10,size=8"`
	F930    []uint32 `mp4:"4,varint,len=dynamic"`
	F932    uint32   `mp4:"6,varint"`
}

var specU96 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F929", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F930Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F930", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F931", Kind: "string", Ver: -1, NVer: -1, CP: true},
	{Name: "F932", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F933", Kind: "uint", Bits: 37, Ver: -1, NVer: -1},
	{Name: "F934", Kind: "array", Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S935", Fields: []*F{{Name: "F936", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S937", Fields: []*F{{Name: "F938", Kind: "int", Bits: 16, Ver: -1, NVer: -1}}}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U96) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU96, name, ctx)
}
func (b *U96) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU96, name, ctx)
}
func (b *U96) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU96, name, ctx)
}
func (b *U96) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU96, name, s, left, ctx)
}
func (b *U96) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU96, name, r, left, ctx)
}
func (b *U96) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU96, name, w, ctx)
}

func (*U96) GetType() mp4.BoxType { return mp4.StrToBoxType("u096") }
func (b *U96) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 1, size, ctx)
}

type U97 struct {
	mp4.FullBox `mp4:"0,extend"`
	Last        []Octet  `mp4:"8,size=8"`
	F945        []uint8  `mp4:"6,size=8,opt=256,len=1"`
	F944        uint64   `mp4:"5,size=64,nopt=0x1,dec"`
	Tail        []uint8  `mp4:"7,len=dynamic,size=1"`
	F942        int8     `mp4:"3,size=8,ver=2"`
	TailLen     uint8    `mp4:"1,size=8"`
	F943        uint32   `mp4:"4,varint,opt=0x100"`
	F941        [4]int32 `mp4:"2,size=32"`
}

var specU97 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F941", Kind: "array", Bits: 32, Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 32, Ver: -1, NVer: -1}},
	{Name: "F942", Kind: "int", Bits: 8, HookBits: 14, Ver: 2, NVer: -1, Hook: "prefix"},
	{Name: "F943", Kind: "varint", Opt: 256, HookBits: 7, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F944", Kind: "uint", Bits: 64, NOpt: 1, Ver: -1, NVer: -1},
	{Name: "F945", Kind: "slice", Bits: 8, Len: 1, Opt: 256, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U97) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU97, name, ctx)
}
func (b *U97) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU97, name, ctx)
}
func (b *U97) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU97, name, ctx)
}
func (b *U97) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU97, name, s, left, ctx)
}
func (b *U97) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU97, name, r, left, ctx)
}
func (b *U97) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU97, name, w, ctx)
}

func (*U97) GetType() mp4.BoxType { return mp4.StrToBoxType("u097") }

type U98 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F948        S949     `mp4:"2,size=16"`
	F950Len     uint16   `mp4:"3,size=16"`
	F950        []int64  `mp4:"4,size=64,len=dynamic"`
	F951        []uint64 `mp4:"5,len=2,size=64"`
	F952        uint16   `mp4:"6,size=16,nopt=0x4"`
	F953Len     uint16   `mp4:"7,size=16"`
	F953        []*S954  `mp4:"8,len=dynamic"`
	F957        bool     `mp4:"9,size=1"`
	Tail        []uint8  `mp4:"10,size=1,len=dynamic"`
	Last        []int32  `mp4:"11,size=24"`
}

var specU98 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F948", Kind: "struct", Sized: 16, Ver: -1, NVer: -1, Sub: "S949", Fields: []*F{{Name: "A949", Kind: "uint", Bits: 12, Ver: -1, NVer: -1}, {Name: "B949", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}}}},
	{Name: "F950Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F950", Kind: "slice", Bits: 64, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 64, Ver: -1, NVer: -1}},
	{Name: "F951", Kind: "slice", Bits: 64, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 64, Ver: -1, NVer: -1}},
	{Name: "F952", Kind: "uint", Bits: 16, NOpt: 4, HookBits: 16, Ver: -1, NVer: -1, Hook: "override"},
	{Name: "F953Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F953", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S954", Fields: []*F{{Name: "F955", Kind: "int", Bits: 32, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"}, {Name: "F956Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1}, {Name: "F956", Kind: "int", Ver: -1, NVer: -1, DynBits: true}}}}},
	{Name: "F957", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 24, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 24, Ver: -1, NVer: -1}},
}

func (b *U98) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU98, name, ctx)
}
func (b *U98) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU98, name, ctx)
}
func (b *U98) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU98, name, ctx)
}
func (b *U98) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU98, name, s, left, ctx)
}
func (b *U98) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU98, name, r, left, ctx)
}
func (b *U98) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU98, name, w, ctx)
}

func (*U98) GetType() mp4.BoxType { return mp4.StrToBoxType("u098") }

type U99 struct {
	mp4.Box
	TailLen  uint8   `mp4:"1,size=8"`
	F960     uint16  `mp4:"2,size=16"`
	F961     *S962   `mp4:"3"`
	F971     bool    `mp4:"4,size=8"`
	F972Bits uint8   `mp4:"5,size=8"`
	F972     int16   `mp4:"6,size=dynamic"`
	F973On   bool    `mp4:"7,size=8"`
	F973     string  `mp4:"8,opt=dynamic,string"`
	Tail     []uint8 `mp4:"9,len=dynamic,size=1"`
	Last     string  `mp4:"10,string"`
}

var specU99 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F960", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "F961", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S962", Fields: []*F{{Name: "F963", Kind: "slice", Bits: 8, Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F964", Kind: "uint", Bits: 32, Ver: -1, NVer: -1}, {Name: "F965", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S966", Fields: []*F{{Name: "F967", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "F968", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S969", Fields: []*F{{Name: "F970", Kind: "bool", Bits: 1, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"}}}}}}}}}},
	{Name: "F971", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F972Bits", Kind: "uint", Bits: 8, Max: 16, Min: 1, Ver: -1, NVer: -1},
	{Name: "F972", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F973On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F973", Kind: "string", Ver: -1, NVer: -1, OptDyn: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1},
}

func (b *U99) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU99, name, ctx)
}
func (b *U99) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU99, name, ctx)
}
func (b *U99) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU99, name, ctx)
}
func (b *U99) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU99, name, s, left, ctx)
}
func (b *U99) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU99, name, r, left, ctx)
}
func (b *U99) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU99, name, w, ctx)
}

func (*U99) GetType() mp4.BoxType { return mp4.StrToBoxType("u099") }

type U100 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F976        [1]S977 `mp4:"2"`
	F989        uint8   `mp4:"3,size=8,nver=2"`
	F990        int16   `mp4:"4,size=16"`
	F991Bits    uint8   `mp4:"5,hex,size=8"`
	F991        uint64  `mp4:"6,size=dynamic"`
	F992On      bool    `mp4:"7,size=8"`
	F992        uint32  `mp4:"8,opt=dynamic,size=24"`
	F993        uint64  `mp4:"9,hex,nver=0,size=64"`
	Tail        []uint8 `mp4:"10,size=1,len=dynamic"`
	Last        []Octet `mp4:"11,size=8"`
}

var specU100 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F976", Kind: "array", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S977", Fields: []*F{{Name: "F978", Kind: "uint", Bits: 32, Ver: -1, NVer: -1}, {Name: "F979On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F979", Kind: "struct", Ver: -1, NVer: -1, OptDyn: true, Sub: "S980", Fields: []*F{{Name: "F981On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F981", Kind: "struct", Ver: -1, NVer: -1, OptDyn: true, Sub: "S982", Fields: []*F{{Name: "F983", Kind: "int", Bits: 57, Ver: -1, NVer: 1}, {Name: "F984", Kind: "array", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F985", Kind: "uint", Bits: 27, Ver: -1, NVer: -1}}}, {Name: "F986", Kind: "string", Ver: -1, NVer: -1}, {Name: "F987", Kind: "varint", HookBits: 16, Ver: -1, NVer: 1, Hook: "prefix"}}}, {Name: "F988", Kind: "uint", Bits: 11, Ver: -1, NVer: -1}}}},
	{Name: "F989", Kind: "uint", Bits: 8, Ver: -1, NVer: 2},
	{Name: "F990", Kind: "int", Bits: 16, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F991Bits", Kind: "uint", Bits: 8, Max: 64, Min: 1, Ver: -1, NVer: -1},
	{Name: "F991", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F992On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F992", Kind: "uint", Bits: 24, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F993", Kind: "uint", Bits: 64, Ver: -1, NVer: 0},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U100) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU100, name, ctx)
}
func (b *U100) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU100, name, ctx)
}
func (b *U100) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU100, name, ctx)
}
func (b *U100) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU100, name, s, left, ctx)
}
func (b *U100) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU100, name, r, left, ctx)
}
func (b *U100) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU100, name, w, ctx)
}

func (*U100) GetType() mp4.BoxType { return mp4.StrToBoxType("u100") }

type U101 struct {
	mp4.AnyTypeBox
	TailLen  uint8   `mp4:"1,size=8"`
	F996Bits uint8   `mp4:"2,hex,size=8"`
	F996     uint16  `mp4:"3,size=dynamic"`
	F997     string  `mp4:"4,string"`
	Tail     []uint8 `mp4:"5,size=1,len=dynamic"`
}

var specU101 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F996Bits", Kind: "uint", Bits: 8, Max: 16, Min: 1, Ver: -1, NVer: -1},
	{Name: "F996", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F997", Kind: "string", Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U101) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU101, name, ctx)
}
func (b *U101) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU101, name, ctx)
}
func (b *U101) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU101, name, ctx)
}
func (b *U101) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU101, name, s, left, ctx)
}
func (b *U101) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU101, name, r, left, ctx)
}
func (b *U101) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU101, name, w, ctx)
}

type U102 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F1000       S1001   `mp4:"2,size=16"`
	F1002       *S1003  `mp4:"3"`
	Tail        []uint8 `mp4:"5,size=1,len=dynamic"`
	F1007       uint16  `mp4:"4,size=16"`
}

var specU102 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1000", Kind: "struct", Sized: 16, Ver: -1, NVer: -1, Sub: "S1001", Fields: []*F{{Name: "A1001", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}, {Name: "B1001", Kind: "slice", Bits: 1, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}}}},
	{Name: "F1002", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1003", Fields: []*F{{Name: "F1004", Kind: "array", Bits: 8, Len: 3, Ver: -1, NVer: 1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1005", Kind: "slice", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1006", Kind: "slice", Bits: 8, Len: 1, NOpt: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
	{Name: "F1007", Kind: "uint", Bits: 16, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U102) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU102, name, ctx)
}
func (b *U102) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU102, name, ctx)
}
func (b *U102) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU102, name, ctx)
}
func (b *U102) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU102, name, s, left, ctx)
}
func (b *U102) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU102, name, r, left, ctx)
}
func (b *U102) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU102, name, w, ctx)
}

func (*U102) GetType() mp4.BoxType { return mp4.StrToBoxType("u102") }

type U103 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F1012Len    uint16  `mp4:"4,size=8"`
	F1013       S1014   `mp4:"7,size=dynamic"`
	Tail        []uint8 `mp4:"10,len=dynamic,size=1"`
	F1013Bits   uint8   `mp4:"6,size=8"`
	F1012       []uint8 `mp4:"5,len=dynamic,size=8"`
	F1015Len    uint16  `mp4:"8,size=16"`
	F1015       []uint8 `mp4:"9,len=dynamic,size=8"`
	F1010Bits   uint8   `mp4:"2,size=8"`
	F1010       S1011   `mp4:"3,size=dynamic"`
}

var specU103 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1010Bits", Kind: "uint", Bits: 8, Max: 15, Min: 1, Ver: -1, NVer: -1, Times8: true},
	{Name: "F1010", Kind: "struct", Ver: -1, NVer: -1, DynBits: true, Sub: "S1011", Fields: []*F{{Name: "A1011", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}, {Name: "B1011", Kind: "slice", Bits: 2, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}}}},
	{Name: "F1012Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1012", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1013Bits", Kind: "uint", Bits: 8, Max: 15, Min: 2, Ver: -1, NVer: -1, Times8: true},
	{Name: "F1013", Kind: "struct", Ver: -1, NVer: -1, DynBits: true, Sub: "S1014", Fields: []*F{{Name: "A1014", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B1014", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}},
	{Name: "F1015Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1015", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U103) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU103, name, ctx)
}
func (b *U103) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU103, name, ctx)
}
func (b *U103) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU103, name, ctx)
}
func (b *U103) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU103, name, s, left, ctx)
}
func (b *U103) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU103, name, r, left, ctx)
}
func (b *U103) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU103, name, w, ctx)
}

func (*U103) GetType() mp4.BoxType { return mp4.StrToBoxType("u103") }

type U104 struct {
	mp4.Box
	TailLen uint8    `mp4:"1,size=8"`
	F1018   uint8    `mp4:"2,size=8"`
	F1019   S1020    `mp4:"3"`
	F1022   uint64   `mp4:"4,size=19"`
	Tail    []uint8  `mp4:"5,size=1,len=dynamic"`
	Last    []*S1024 `mp4:"6"`
}

var specU104 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1018", Kind: "uint", Bits: 8, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F1019", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1020", Fields: []*F{{Name: "F1021", Kind: "array", Bits: 8, Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}},
	{Name: "F1022", Kind: "uint", Bits: 19, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1024", Fields: []*F{{Name: "A1024", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}, {Name: "B1024", Kind: "int", Bits: 13, Ver: -1, NVer: -1}, {Name: "C1024", Kind: "string", Ver: -1, NVer: -1}}}}},
}

func (b *U104) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU104, name, ctx)
}
func (b *U104) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU104, name, ctx)
}
func (b *U104) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU104, name, ctx)
}
func (b *U104) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU104, name, s, left, ctx)
}
func (b *U104) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU104, name, r, left, ctx)
}
func (b *U104) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU104, name, w, ctx)
}

func (*U104) GetType() mp4.BoxType { return mp4.StrToBoxType("u104") }
func (b *U104) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 4, size, ctx)
}

type U105 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8,hex"`
	F1026       uint32  `mp4:"2,size=24,nver=0"`
	F1027       bool    `mp4:"3,size=1"`
	F1028       S1029   `mp4:"4"`
	F1032Len    uint16  `mp4:"5,size=16"`
	F1032       []uint8 `mp4:"6,size=8,len=dynamic"`
	F1033       bool    `mp4:"7,size=1"`
	F1034       []uint8 `mp4:"8,size=8,len=1"`
	Tail        []uint8 `mp4:"9,hex,size=1,len=dynamic"`
}

var specU105 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1026", Kind: "uint", Bits: 24, Ver: -1, NVer: 0},
	{Name: "F1027", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
	{Name: "F1028", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1029", Fields: []*F{{Name: "F1030", Kind: "slice", Bits: 8, Len: 4, Opt: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1031", Kind: "varint", Ver: -1, NVer: -1}}},
	{Name: "F1032Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1032", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1033", Kind: "bool", Bits: 1, Ver: -1, NVer: -1},
	{Name: "F1034", Kind: "slice", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U105) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU105, name, ctx)
}
func (b *U105) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU105, name, ctx)
}
func (b *U105) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU105, name, ctx)
}
func (b *U105) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU105, name, s, left, ctx)
}
func (b *U105) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU105, name, r, left, ctx)
}
func (b *U105) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU105, name, w, ctx)
}

func (*U105) GetType() mp4.BoxType { return mp4.StrToBoxType("u105") }

type U106 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F1037       bool    `mp4:"2,nopt=0x1,size=32"`
	Tail        []uint8 `mp4:"3,size=1,len=dynamic"`
	Last        []uint8 `mp4:"4,dec,size=2"`
}

var specU106 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1037", Kind: "bool", Bits: 32, NOpt: 1, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 2, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}},
}

func (b *U106) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU106, name, ctx)
}
func (b *U106) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU106, name, ctx)
}
func (b *U106) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU106, name, ctx)
}
func (b *U106) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU106, name, s, left, ctx)
}
func (b *U106) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU106, name, r, left, ctx)
}
func (b *U106) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU106, name, w, ctx)
}

func (*U106) GetType() mp4.BoxType { return mp4.StrToBoxType("u106") }

type U107 struct {
	mp4.FullBox `mp4:"0,extend"`
	F1041Bits   uint8    `mp4:"3,size=8"`
	F1041       uint64   `mp4:"4,size=dynamic"`
	TailLen     uint8    `mp4:"1,size=8"`
	Tail        []uint8  `mp4:"5,size=1,len=dynamic"`
	Last        []string `mp4:"6,string"`
	F1040       string   `mp4:"2,string"`
}

var specU107 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1040", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F1041Bits", Kind: "uint", Bits: 8, Max: 64, Min: 1, Ver: -1, NVer: -1},
	{Name: "F1041", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
}

func (b *U107) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU107, name, ctx)
}
func (b *U107) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU107, name, ctx)
}
func (b *U107) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU107, name, ctx)
}
func (b *U107) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU107, name, s, left, ctx)
}
func (b *U107) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU107, name, r, left, ctx)
}
func (b *U107) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU107, name, w, ctx)
}

func (*U107) GetType() mp4.BoxType { return mp4.StrToBoxType("u107") }

type U108 struct {
	mp4.Box
	TailLen   uint8     `mp4:"1,size=8"`
	F1044     int       `mp4:"2,size=32"`
	F1045     [4]uint32 `mp4:"3,varint"`
	F1046Bits uint8     `mp4:"4,size=8"`
	F1046     int32     `mp4:"5,size=dynamic"`
	Tail      []uint8   `mp4:"6,size=1,len=dynamic"`
}

var specU108 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1044", Kind: "int", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F1045", Kind: "array", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F1046Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F1046", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U108) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU108, name, ctx)
}
func (b *U108) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU108, name, ctx)
}
func (b *U108) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU108, name, ctx)
}
func (b *U108) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU108, name, s, left, ctx)
}
func (b *U108) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU108, name, r, left, ctx)
}
func (b *U108) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU108, name, w, ctx)
}

func (*U108) GetType() mp4.BoxType { return mp4.StrToBoxType("u108") }

type U109 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8     `mp4:"1,size=8"`
	F1049       int64     `mp4:"2,size=50"`
	F1050       int32     `mp4:"3,size=32"`
	F1051       [4]uint32 `mp4:"4,varint"`
	F1052       uint64    `mp4:"5,size=8"`
	Tail        []uint8   `mp4:"6,hex,size=1,len=dynamic"`
	Last        string    `mp4:"7,boxstring"`
}

var specU109 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1049", Kind: "int", Bits: 50, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F1050", Kind: "int", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F1051", Kind: "array", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F1052", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, Box: true},
}

func (b *U109) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU109, name, ctx)
}
func (b *U109) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU109, name, ctx)
}
func (b *U109) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU109, name, ctx)
}
func (b *U109) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU109, name, s, left, ctx)
}
func (b *U109) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU109, name, r, left, ctx)
}
func (b *U109) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU109, name, w, ctx)
}

func (*U109) GetType() mp4.BoxType { return mp4.StrToBoxType("u109") }

type U110 struct {
	mp4.FullBox `mp4:"0,extend"`
	F1078       []*S1079 `mp4:"5,len=dynamic"`
	F1071       *S1072   `mp4:"3"`
	Tail        []uint8  `mp4:"6,len=dynamic,size=1"`
	TailLen     uint8    `mp4:"1,size=8"`
	F1078Len    uint16   `mp4:"4,size=8,hex"`
	F1055       [5]S1056 `mp4:"2"`
}

var specU110 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1055", Kind: "array", Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1056", Fields: []*F{{Name: "F1057", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1058", Fields: []*F{{Name: "F1059", Kind: "uint", Bits: 24, Ver: -1, NVer: -1}, {Name: "F1060", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1061", Fields: []*F{{Name: "F1062", Kind: "slice", Bits: 8, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}}}}}, {Name: "F1063", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1064", Fields: []*F{{Name: "F1065", Kind: "bool", Bits: 32, Ver: -1, NVer: -1}, {Name: "F1066", Kind: "array", Len: 5, Ver: -1, NVer: 2, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1067", Fields: []*F{{Name: "F1068", Kind: "array", Bits: 8, Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1069", Kind: "string", Ver: -1, NVer: -1}, {Name: "F1070", Kind: "int", Bits: 24, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"}}}}}}}}},
	{Name: "F1071", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1072", Fields: []*F{{Name: "F1073", Kind: "string", Ver: 2, NVer: -1}, {Name: "F1074", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1075", Fields: []*F{{Name: "F1076", Kind: "array", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}}, {Name: "F1077", Kind: "slice", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
	{Name: "F1078Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1078", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1079", Fields: []*F{{Name: "F1080", Kind: "bool", Bits: 32, Ver: -1, NVer: -1}, {Name: "F1081", Kind: "bool", Bits: 16, Ver: -1, NVer: -1}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U110) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU110, name, ctx)
}
func (b *U110) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU110, name, ctx)
}
func (b *U110) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU110, name, ctx)
}
func (b *U110) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU110, name, s, left, ctx)
}
func (b *U110) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU110, name, r, left, ctx)
}
func (b *U110) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU110, name, w, ctx)
}

func (*U110) GetType() mp4.BoxType { return mp4.StrToBoxType("u110") }

type U111 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	Tail        []uint8  `mp4:"7,size=1,len=dynamic"`
	F1085       uint32   `mp4:"3,varint"`
	Last        []byte   `mp4:"8,size=8"`
	F1084       uint32   `mp4:"2,varint"`
	F1086       uint64   `mp4:"4,size=64"`
	F1087       [1]Octet `mp4:"5,size=8"`
	F1088       []uint   `mp4:"6,size=64,len=1"`
}

var specU111 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1084", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F1085", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F1086", Kind: "uint", Bits: 64, Ver: -1, NVer: -1},
	{Name: "F1087", Kind: "array", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1088", Kind: "slice", Bits: 64, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 64, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U111) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU111, name, ctx)
}
func (b *U111) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU111, name, ctx)
}
func (b *U111) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU111, name, ctx)
}
func (b *U111) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU111, name, s, left, ctx)
}
func (b *U111) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU111, name, r, left, ctx)
}
func (b *U111) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU111, name, w, ctx)
}

func (*U111) GetType() mp4.BoxType { return mp4.StrToBoxType("u111") }

type U112 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F1091       uint64  `mp4:"2,nopt=0x100,size=40"`
	F1092       uint32  `mp4:"3,nver=1,dec,size=5"`
	Tail        []uint8 `mp4:"4,len=dynamic,size=1"`
	Last        []uint8 `mp4:"5,size=3"`
}

var specU112 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1091", Kind: "uint", Bits: 40, NOpt: 256, Ver: -1, NVer: -1},
	{Name: "F1092", Kind: "uint", Bits: 5, HookBits: 5, Ver: -1, NVer: 1, Hook: "override"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 3, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}},
}

func (b *U112) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU112, name, ctx)
}
func (b *U112) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU112, name, ctx)
}
func (b *U112) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU112, name, ctx)
}
func (b *U112) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU112, name, s, left, ctx)
}
func (b *U112) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU112, name, r, left, ctx)
}
func (b *U112) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU112, name, w, ctx)
}

func (*U112) GetType() mp4.BoxType { return mp4.StrToBoxType("u112") }

type U113 struct {
	mp4.Box
	F1106     int32   `mp4:"6,size=24"`
	F1098     *S1099  `mp4:"5"`
	Tail      []uint8 `mp4:"8,size=1,len=dynamic"`
	Last      string  `mp4:"9,string=c_p"`
	F1096     S1097   `mp4:"4,size=dynamic"`
	F1095     uint    `mp4:"2,size=64"`
	F1107     uint32  `mp4:"7,varint"`
	TailLen   uint8   `mp4:"1,size=8"`
	F1096Bits uint8   `mp4:"3,size=8"`
}

var specU113 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1095", Kind: "uint", Bits: 64, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F1096Bits", Kind: "uint", Bits: 8, Max: 15, Min: 1, Ver: -1, NVer: -1, Times8: true},
	{Name: "F1096", Kind: "struct", Ver: -1, NVer: -1, DynBits: true, Sub: "S1097", Fields: []*F{{Name: "A1097", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}, {Name: "B1097", Kind: "slice", Bits: 4, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 4, Ver: -1, NVer: -1}}}},
	{Name: "F1098", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1099", Fields: []*F{{Name: "F1100", Kind: "slice", Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1101", Fields: []*F{{Name: "F1102", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1103", Fields: []*F{{Name: "F1104", Kind: "varint", Ver: -1, NVer: -1}, {Name: "F1105", Kind: "int", Bits: 64, Ver: -1, NVer: -1}}}}}}}}}},
	{Name: "F1106", Kind: "int", Bits: 24, Ver: -1, NVer: -1},
	{Name: "F1107", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, CP: true},
}

func (b *U113) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU113, name, ctx)
}
func (b *U113) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU113, name, ctx)
}
func (b *U113) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU113, name, ctx)
}
func (b *U113) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU113, name, s, left, ctx)
}
func (b *U113) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU113, name, r, left, ctx)
}
func (b *U113) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU113, name, w, ctx)
}

func (*U113) GetType() mp4.BoxType { return mp4.StrToBoxType("u113") }

type U114 struct {
	mp4.FullBox `mp4:"0,extend"`
	F1110       string   `mp4:"2,string=c_p,nopt=0x4"`
	TailLen     uint8    `mp4:"1,size=8"`
	F1114       *S1115   `mp4:"7"`
	Last        []byte   `mp4:"11,size=8,len=dynamic"`
	F1113       []Octet  `mp4:"6,dec,size=8,len=dynamic"`
	F1113Len    uint16   `mp4:"5,size=16"`
	Tail        []uint8  `mp4:"10,len=dynamic,size=1"`
	F1120Len    uint16   `mp4:"8,size=16"`
	F1111       S1112    `mp4:"4,size=dynamic"`
	F1120       []uint32 `mp4:"9,len=dynamic,varint"`
	F1111Bits   uint8    `mp4:"3,size=8"`
}

var specU114 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1110", Kind: "string", NOpt: 4, Ver: -1, NVer: -1, CP: true},
	{Name: "F1111Bits", Kind: "uint", Bits: 8, Max: 15, Min: 2, Ver: -1, NVer: -1, Times8: true},
	{Name: "F1111", Kind: "struct", Ver: -1, NVer: -1, DynBits: true, Sub: "S1112", Fields: []*F{{Name: "A1112", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B1112", Kind: "slice", Bits: 2, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}}}},
	{Name: "F1113Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1113", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1114", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1115", Fields: []*F{{Name: "F1116", Kind: "struct", NOpt: 4, Ver: -1, NVer: -1, Sub: "S1117", Fields: []*F{{Name: "F1118", Kind: "array", Bits: 8, Len: 5, Ver: -1, NVer: 0, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1119", Kind: "varint", Ver: -1, NVer: -1}}}}}},
	{Name: "F1120Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1120", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U114) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU114, name, ctx)
}
func (b *U114) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU114, name, ctx)
}
func (b *U114) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU114, name, ctx)
}
func (b *U114) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU114, name, s, left, ctx)
}
func (b *U114) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU114, name, r, left, ctx)
}
func (b *U114) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU114, name, w, ctx)
}

func (*U114) GetType() mp4.BoxType { return mp4.StrToBoxType("u114") }

type U115 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F1123       uint32   `mp4:"2,varint"`
	F1124Bits   uint8    `mp4:"3,size=8"`
	F1124       S1125    `mp4:"4,size=dynamic"`
	F1126Len    uint16   `mp4:"5,size=16"`
	F1126       []string `mp4:"6,string,len=dynamic"`
	Tail        []uint8  `mp4:"7,len=dynamic,size=1"`
	Last        string   `mp4:"8,boxstring"`
}

var specU115 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1123", Kind: "varint", HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F1124Bits", Kind: "uint", Bits: 8, Max: 15, Min: 2, Ver: -1, NVer: -1, Times8: true},
	{Name: "F1124", Kind: "struct", Ver: -1, NVer: -1, DynBits: true, Sub: "S1125", Fields: []*F{{Name: "A1125", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B1125", Kind: "slice", Bits: 1, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}}}},
	{Name: "F1126Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1126", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, Box: true},
}

func (b *U115) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU115, name, ctx)
}
func (b *U115) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU115, name, ctx)
}
func (b *U115) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU115, name, ctx)
}
func (b *U115) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU115, name, s, left, ctx)
}
func (b *U115) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU115, name, r, left, ctx)
}
func (b *U115) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU115, name, w, ctx)
}

func (*U115) GetType() mp4.BoxType { return mp4.StrToBoxType("u115") }

type U116 struct {
	mp4.AnyTypeBox
	TailLen   uint8    `mp4:"1,size=8"`
	F1129     string   `mp4:"2,string=c_p"`
	F1130     uint64   `mp4:"3,size=64"`
	F1131Bits uint8    `mp4:"4,size=8"`
	F1131     uint64   `mp4:"5,size=dynamic"`
	F1132Len  uint16   `mp4:"6,size=16"`
	F1132     []string `mp4:"7,string,len=dynamic"`
	F1133     S1134    `mp4:"8"`
	Tail      []uint8  `mp4:"9,size=1,len=dynamic"`
	Last      []*S1138 `mp4:"10"`
}

var specU116 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1129", Kind: "string", Ver: -1, NVer: -1, CP: true},
	{Name: "F1130", Kind: "uint", Bits: 64, Ver: -1, NVer: -1},
	{Name: "F1131Bits", Kind: "uint", Bits: 8, Max: 64, Min: 1, Ver: -1, NVer: -1},
	{Name: "F1131", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F1132Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1132", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "F1133", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1134", Fields: []*F{{Name: "F1135", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "F1136", Kind: "uint", Bits: 27, Ver: -1, NVer: -1}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1138", Fields: []*F{{Name: "A1138", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}, {Name: "B1138", Kind: "int", Bits: 13, Ver: -1, NVer: -1}, {Name: "C1138", Kind: "string", Ver: -1, NVer: -1}}}}},
}

func (b *U116) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU116, name, ctx)
}
func (b *U116) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU116, name, ctx)
}
func (b *U116) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU116, name, ctx)
}
func (b *U116) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU116, name, s, left, ctx)
}
func (b *U116) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU116, name, r, left, ctx)
}
func (b *U116) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU116, name, w, ctx)
}

type U117 struct {
	mp4.FullBox `mp4:"0,extend"`
	Tail        []uint8 `mp4:"5,size=1,len=dynamic"`
	F1140       uint64  `mp4:"2,opt=1,size=32"`
	F1142       S1143   `mp4:"4,size=40"`
	TailLen     uint8   `mp4:"1,size=8"`
	F1141       string  `mp4:"3,nopt=0x4,string=c_p"`
}

var specU117 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1140", Kind: "uint", Bits: 32, Opt: 1, Ver: -1, NVer: -1},
	{Name: "F1141", Kind: "string", NOpt: 4, Ver: -1, NVer: -1, CP: true},
	{Name: "F1142", Kind: "struct", Sized: 40, Ver: -1, NVer: -1, Sub: "S1143", Fields: []*F{{Name: "A1143", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B1143", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U117) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU117, name, ctx)
}
func (b *U117) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU117, name, ctx)
}
func (b *U117) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU117, name, ctx)
}
func (b *U117) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU117, name, s, left, ctx)
}
func (b *U117) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU117, name, r, left, ctx)
}
func (b *U117) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU117, name, w, ctx)
}

func (*U117) GetType() mp4.BoxType { return mp4.StrToBoxType("u117") }

type U118 struct {
	mp4.Box
	F1148   int32    `mp4:"4,size=32"`
	TailLen uint8    `mp4:"1,size=8"`
	F1146   [1]uint8 `mp4:"2,size=8"`
	Last    []uint32 `mp4:"6,varint"`
	Tail    []uint8  `mp4:"5,len=dynamic,size=1"`
	F1147   uint16   `mp4:"3,size=15"`
}

var specU118 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1146", Kind: "array", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1147", Kind: "uint", Bits: 15, Ver: -1, NVer: -1},
	{Name: "F1148", Kind: "int", Bits: 32, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
}

func (b *U118) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU118, name, ctx)
}
func (b *U118) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU118, name, ctx)
}
func (b *U118) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU118, name, ctx)
}
func (b *U118) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU118, name, s, left, ctx)
}
func (b *U118) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU118, name, r, left, ctx)
}
func (b *U118) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU118, name, w, ctx)
}

func (*U118) GetType() mp4.BoxType { return mp4.StrToBoxType("u118") }

type U119 struct {
	mp4.FullBox `mp4:"0,extend"`
	F1154       int      `mp4:"6,opt=dynamic,size=64"`
	F1155       string   `mp4:"7,string"`
	F1154On     bool     `mp4:"5,size=8"`
	Last        []uint64 `mp4:"10,size=12"`
	F1151Bits   uint8    `mp4:"2,size=8"`
	F1153       int32    `mp4:"4,size=24"`
	TailLen     uint8    `mp4:"1,size=8"`
	Tail        []uint8  `mp4:"9,size=1,len=dynamic"`
	F1151       S1152    `mp4:"3,size=dynamic"`
	F1156       uint32   `mp4:"8,ver=2,varint"`
}

var specU119 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1151Bits", Kind: "uint", Bits: 8, Max: 15, Min: 2, Ver: -1, NVer: -1, Times8: true},
	{Name: "F1151", Kind: "struct", Ver: -1, NVer: -1, DynBits: true, Sub: "S1152", Fields: []*F{{Name: "A1152", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B1152", Kind: "slice", Bits: 16, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}}}},
	{Name: "F1153", Kind: "int", Bits: 24, Ver: -1, NVer: -1},
	{Name: "F1154On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1154", Kind: "int", Bits: 64, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F1155", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F1156", Kind: "varint", Ver: 2, NVer: -1, Hook: "peek"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 12, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 12, Ver: -1, NVer: -1}},
}

func (b *U119) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU119, name, ctx)
}
func (b *U119) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU119, name, ctx)
}
func (b *U119) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU119, name, ctx)
}
func (b *U119) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU119, name, s, left, ctx)
}
func (b *U119) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU119, name, r, left, ctx)
}
func (b *U119) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU119, name, w, ctx)
}

func (*U119) GetType() mp4.BoxType { return mp4.StrToBoxType("u119") }

type U120 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8     `mp4:"1,size=8"`
	F1159Bits   uint8     `mp4:"2,size=8"`
	F1159       S1160     `mp4:"3,size=dynamic"`
	F1161       uint32    `mp4:"4,varint"`
	F1162       uint64    `mp4:"5,nopt=0x1,size=48"`
	F1163       string    `mp4:"6,string,opt=4"`
	F1164       [3]*S1165 `mp4:"7"`
	Tail        []uint8   `mp4:"8,size=1,len=dynamic"`
}

var specU120 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1159Bits", Kind: "uint", Bits: 8, Max: 15, Min: 2, Ver: -1, NVer: -1, Times8: true},
	{Name: "F1159", Kind: "struct", Ver: -1, NVer: -1, DynBits: true, Sub: "S1160", Fields: []*F{{Name: "A1160", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B1160", Kind: "slice", Bits: 2, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}}}},
	{Name: "F1161", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F1162", Kind: "uint", Bits: 48, NOpt: 1, HookBits: 5, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F1163", Kind: "string", Opt: 4, Ver: -1, NVer: -1},
	{Name: "F1164", Kind: "array", Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1165", Fields: []*F{{Name: "F1166", Kind: "struct", Opt: 256, Ver: -1, NVer: -1, Sub: "S1167", Fields: []*F{{Name: "F1168Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1}, {Name: "F1168", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}, {Name: "F1169", Kind: "bool", Bits: 1, Ver: 1, NVer: -1}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U120) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU120, name, ctx)
}
func (b *U120) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU120, name, ctx)
}
func (b *U120) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU120, name, ctx)
}
func (b *U120) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU120, name, s, left, ctx)
}
func (b *U120) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU120, name, r, left, ctx)
}
func (b *U120) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU120, name, w, ctx)
}

func (*U120) GetType() mp4.BoxType { return mp4.StrToBoxType("u120") }

type U121 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F1172       [2]uint8 `mp4:"2,size=8"`
	Tail        []uint8  `mp4:"3,len=dynamic,size=1"`
	Last        []Octet  `mp4:"4,size=8"`
}

var specU121 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1172", Kind: "array", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U121) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU121, name, ctx)
}
func (b *U121) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU121, name, ctx)
}
func (b *U121) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU121, name, ctx)
}
func (b *U121) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU121, name, s, left, ctx)
}
func (b *U121) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU121, name, r, left, ctx)
}
func (b *U121) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU121, name, w, ctx)
}

func (*U121) GetType() mp4.BoxType { return mp4.StrToBoxType("u121") }

type U122 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8,dec"`
	F1175       uint    `mp4:"2,size=40,nopt=0x1"`
	F1176       bool    `mp4:"3,size=16,nver=0"`
	Tail        []uint8 `mp4:"4,len=dynamic,size=1"`
	Last        string  `mp4:"5,boxstring"`
}

var specU122 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1175", Kind: "uint", Bits: 40, NOpt: 1, Ver: -1, NVer: -1},
	{Name: "F1176", Kind: "bool", Bits: 16, Ver: -1, NVer: 0, Hook: "peek"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, Box: true},
}

func (b *U122) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU122, name, ctx)
}
func (b *U122) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU122, name, ctx)
}
func (b *U122) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU122, name, ctx)
}
func (b *U122) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU122, name, s, left, ctx)
}
func (b *U122) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU122, name, r, left, ctx)
}
func (b *U122) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU122, name, w, ctx)
}

func (*U122) GetType() mp4.BoxType { return mp4.StrToBoxType("u122") }

type U123 struct {
	mp4.FullBox `mp4:"0,extend"`
	F1182       uint8    `mp4:"7,size=8"`
	F1183       [3]bool  `mp4:"8,size=3"`
	F1184       bool     `mp4:"10,size=34,opt=dynamic"`
	F1180       []Octet  `mp4:"5,len=dynamic,size=8"`
	F1181       []uint64 `mp4:"6,len=3,size=2"`
	Tail        []uint8  `mp4:"11,len=dynamic,size=1"`
	F1179On     bool     `mp4:"2,size=8"`
	F1180Len    uint16   `mp4:"4,size=16"`
	F1179       [1]uint8 `mp4:"3,opt=dynamic,size=8"`
	TailLen     uint8    `mp4:"1,size=8"`
	F1184On     bool     `mp4:"9,size=8"`
	Last        []uint16 `mp4:"12,size=2"`
}

var specU123 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1179On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1179", Kind: "array", Bits: 8, Len: 1, Ver: -1, NVer: -1, OptDyn: true, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1180Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1180", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1181", Kind: "slice", Bits: 2, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}},
	{Name: "F1182", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1183", Kind: "array", Bits: 3, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "bool", Bits: 3, Ver: -1, NVer: -1}},
	{Name: "F1184On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1184", Kind: "bool", Bits: 34, HookBits: 16, Ver: -1, NVer: -1, OptDyn: true, Hook: "prefix"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 2, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 2, Ver: -1, NVer: -1}},
}

func (b *U123) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU123, name, ctx)
}
func (b *U123) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU123, name, ctx)
}
func (b *U123) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU123, name, ctx)
}
func (b *U123) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU123, name, s, left, ctx)
}
func (b *U123) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU123, name, r, left, ctx)
}
func (b *U123) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU123, name, w, ctx)
}

func (*U123) GetType() mp4.BoxType { return mp4.StrToBoxType("u123") }

type U124 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F1187       S1188    `mp4:"2"`
	F1190       bool     `mp4:"3,opt=0x4,size=6"`
	F1191       uint64   `mp4:"4,size=48"`
	Tail        []uint8  `mp4:"5,size=1,len=dynamic"`
	Last        []uint32 `mp4:"6,varint"`
}

var specU124 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1187", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1188", Fields: []*F{{Name: "F1189Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1}, {Name: "F1189", Kind: "uint", Ver: -1, NVer: -1, DynBits: true}}},
	{Name: "F1190", Kind: "bool", Bits: 6, Opt: 4, Ver: -1, NVer: -1},
	{Name: "F1191", Kind: "uint", Bits: 48, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
}

func (b *U124) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU124, name, ctx)
}
func (b *U124) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU124, name, ctx)
}
func (b *U124) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU124, name, ctx)
}
func (b *U124) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU124, name, s, left, ctx)
}
func (b *U124) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU124, name, r, left, ctx)
}
func (b *U124) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU124, name, w, ctx)
}

func (*U124) GetType() mp4.BoxType { return mp4.StrToBoxType("u124") }

type U125 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F1194Len    uint16   `mp4:"2,size=8"`
	F1194       []Octet  `mp4:"3,len=dynamic,dec,size=8"`
	F1195       int16    `mp4:"4,hex,size=16"`
	Tail        []uint8  `mp4:"5,size=1,len=dynamic"`
	Last        []string `mp4:"6,string"`
}

var specU125 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1194Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1194", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1195", Kind: "int", Bits: 16, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
}

func (b *U125) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU125, name, ctx)
}
func (b *U125) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU125, name, ctx)
}
func (b *U125) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU125, name, ctx)
}
func (b *U125) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU125, name, s, left, ctx)
}
func (b *U125) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU125, name, r, left, ctx)
}
func (b *U125) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU125, name, w, ctx)
}

func (*U125) GetType() mp4.BoxType { return mp4.StrToBoxType("u125") }

type U126 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F1198       string   `mp4:"2,string"`
	F1199       []uint8  `mp4:"3,size=8,len=2"`
	F1200       *S1201   `mp4:"4"`
	F1204Len    uint16   `mp4:"5,size=16"`
	F1204       []S1205  `mp4:"6,len=dynamic"`
	F1209       []*S1210 `mp4:"7,len=0"`
	Tail        []uint8  `mp4:"8,len=dynamic,size=1"`
	Last        []Octet  `mp4:"9,size=8"`
}

var specU126 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1198", Kind: "string", Ver: -1, NVer: -1},
	{Name: "F1199", Kind: "slice", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1200", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1201", Fields: []*F{{Name: "F1202", Kind: "uint", Bits: 15, Ver: 2, NVer: -1}, {Name: "F1203", Kind: "uint", Bits: 64, Ver: -1, NVer: -1}}}},
	{Name: "F1204Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1204", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1205", Fields: []*F{{Name: "F1206", Kind: "int", Bits: 6, Ver: -1, NVer: -1}, {Name: "F1207", Kind: "int", Bits: 64, NOpt: 2, Ver: -1, NVer: -1}, {Name: "F1208", Kind: "int", Bits: 8, Ver: 2, NVer: -1}}}},
	{Name: "F1209", Kind: "slice", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1210", Fields: []*F{{Name: "F1211", Kind: "bool", Bits: 1, Opt: 256, Ver: -1, NVer: -1}, {Name: "F1212", Kind: "uint", Bits: 8, NOpt: 4, Ver: -1, NVer: -1}, {Name: "F1213", Kind: "slice", Len: 2, Opt: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U126) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU126, name, ctx)
}
func (b *U126) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU126, name, ctx)
}
func (b *U126) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU126, name, ctx)
}
func (b *U126) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU126, name, s, left, ctx)
}
func (b *U126) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU126, name, r, left, ctx)
}
func (b *U126) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU126, name, w, ctx)
}

func (*U126) GetType() mp4.BoxType { return mp4.StrToBoxType("u126") }

type U127 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F1216       bool    `mp4:"2,size=24"`
	F1217       bool    `mp4:"3,size=1"`
	F1218       uint64  `mp4:"4,size=24,nopt=0x1"`
	F1219       bool    `mp4:"5,opt=4,size=16"`
	F1220       uint64  `mp4:"6,size=48"`
	F1221       *S1222  `mp4:"7"`
	Tail        []uint8 `mp4:"8,size=1,len=dynamic,dec"`
	Last        []S1238 `mp4:"9,size=40"`
}

var specU127 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1216", Kind: "bool", Bits: 24, Ver: -1, NVer: -1},
	{Name: "F1217", Kind: "bool", Bits: 1, HookBits: 15, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F1218", Kind: "uint", Bits: 24, NOpt: 1, Ver: -1, NVer: -1},
	{Name: "F1219", Kind: "bool", Bits: 16, Opt: 4, Ver: -1, NVer: -1},
	{Name: "F1220", Kind: "uint", Bits: 48, HookBits: 24, Ver: -1, NVer: -1, Hook: "bytes"},
	{Name: "F1221", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1222", Fields: []*F{{Name: "F1223", Kind: "string", Ver: -1, NVer: -1}, {Name: "F1224", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1225", Fields: []*F{{Name: "F1226", Kind: "string", Ver: -1, NVer: 1, CP: true}, {Name: "F1227", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1228", Fields: []*F{{Name: "F1229", Kind: "uint", Bits: 3, NOpt: 1, Ver: -1, NVer: -1}}}}, {Name: "F1230Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1}, {Name: "F1230", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1231", Fields: []*F{{Name: "F1232", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1233", Fields: []*F{{Name: "F1234", Kind: "bool", Bits: 16, Ver: -1, NVer: -1}, {Name: "F1235", Kind: "uint", Bits: 64, Ver: -1, NVer: 2}, {Name: "F1236", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}}}}}}}}}}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Sized: 40, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Sized: 40, Ver: -1, NVer: -1, Sub: "S1238", Fields: []*F{{Name: "A1238", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B1238", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
}

func (b *U127) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU127, name, ctx)
}
func (b *U127) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU127, name, ctx)
}
func (b *U127) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU127, name, ctx)
}
func (b *U127) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU127, name, s, left, ctx)
}
func (b *U127) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU127, name, r, left, ctx)
}
func (b *U127) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU127, name, w, ctx)
}

func (*U127) GetType() mp4.BoxType { return mp4.StrToBoxType("u127") }

type U128 struct {
	mp4.Box
	F1247     int64    `mp4:"9,size=dynamic"`
	F1248     int16    `mp4:"10,size=6"`
	F1245Bits uint8    `mp4:"5,size=8"`
	F1244Bits uint8    `mp4:"3,size=8"`
	Last      []string `mp4:"12,string"`
	F1240     S1241    `mp4:"2"`
	F1244     int16    `mp4:"4,size=dynamic"`
	F1245     int32    `mp4:"6,size=dynamic"`
	F1247Bits uint8    `mp4:"8,size=8"`
	TailLen   uint8    `mp4:"1,size=8"`
	Tail      []uint8  `mp4:"11,size=1,len=dynamic"`
	F1246     []uint8  `mp4:"7,len=5,size=8"`
}

var specU128 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1240", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1241", Fields: []*F{{Name: "F1242Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1}, {Name: "F1242", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1243", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}}},
	{Name: "F1244Bits", Kind: "uint", Bits: 8, Max: 16, Min: 1, Ver: -1, NVer: -1},
	{Name: "F1244", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F1245Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F1245", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F1246", Kind: "slice", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1247Bits", Kind: "uint", Bits: 8, Max: 64, Min: 1, Ver: -1, NVer: -1},
	{Name: "F1247", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F1248", Kind: "int", Bits: 6, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
}

func (b *U128) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU128, name, ctx)
}
func (b *U128) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU128, name, ctx)
}
func (b *U128) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU128, name, ctx)
}
func (b *U128) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU128, name, s, left, ctx)
}
func (b *U128) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU128, name, r, left, ctx)
}
func (b *U128) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU128, name, w, ctx)
}

func (*U128) GetType() mp4.BoxType { return mp4.StrToBoxType("u128") }
func (b *U128) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 1, size, ctx)
}

type U129 struct {
	mp4.Box
	TailLen   uint8   `mp4:"1,size=8"`
	F1251Bits uint8   `mp4:"2,size=8"`
	F1252Bits uint8   `mp4:"4,size=8"`
	F1254     uint32  `mp4:"7,varint"`
	Tail      []uint8 `mp4:"8,len=dynamic,size=1"`
	F1251     uint8   `mp4:"3,size=dynamic,hex"`
	F1252     uint64  `mp4:"5,size=dynamic"`
	Last      []S1256 `mp4:"9,size=40"`
	F1253     uint32  `mp4:"6,varint"`
}

var specU129 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1251Bits", Kind: "uint", Bits: 8, Max: 8, Min: 1, Ver: -1, NVer: -1},
	{Name: "F1251", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F1252Bits", Kind: "uint", Bits: 8, Max: 64, Min: 1, Ver: -1, NVer: -1},
	{Name: "F1252", Kind: "uint", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F1253", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "F1254", Kind: "varint", Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Sized: 40, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Sized: 40, Ver: -1, NVer: -1, Sub: "S1256", Fields: []*F{{Name: "A1256", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B1256", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
}

func (b *U129) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU129, name, ctx)
}
func (b *U129) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU129, name, ctx)
}
func (b *U129) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU129, name, ctx)
}
func (b *U129) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU129, name, s, left, ctx)
}
func (b *U129) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU129, name, r, left, ctx)
}
func (b *U129) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU129, name, w, ctx)
}

func (*U129) GetType() mp4.BoxType { return mp4.StrToBoxType("u129") }

type U130 struct {
	mp4.FullBox `mp4:"0,extend"`
	F1259       bool     `mp4:"4,nver=1,size=1"`
	F1262       uint64   `mp4:"8,size=32"`
	F1261       uint32   `mp4:"7,size=32"`
	F1260       []Octet  `mp4:"6,size=8,len=dynamic"`
	F1263Len    uint16   `mp4:"9,size=8"`
	F1258       int32    `mp4:"3,size=dynamic"`
	Tail        []uint8  `mp4:"11,size=1,len=dynamic"`
	TailLen     uint8    `mp4:"1,size=8"`
	F1258Bits   uint8    `mp4:"2,size=8"`
	F1260Len    uint16   `mp4:"5,size=16"`
	Last        []S1265  `mp4:"12"`
	F1263       []uint32 `mp4:"10,len=dynamic,size=29"`
}

var specU130 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1258Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F1258", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "F1259", Kind: "bool", Bits: 1, HookBits: 8, Ver: -1, NVer: 1, Hook: "prefix"},
	{Name: "F1260Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1260", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1261", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F1262", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
	{Name: "F1263Len", Kind: "uint", Bits: 8, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1263", Kind: "slice", Bits: 29, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 29, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1265", Fields: []*F{{Name: "A1265", Kind: "uint", Bits: 3, Ver: -1, NVer: -1}, {Name: "B1265", Kind: "int", Bits: 13, Ver: -1, NVer: -1}, {Name: "C1265", Kind: "string", Ver: -1, NVer: -1}}}},
}

func (b *U130) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU130, name, ctx)
}
func (b *U130) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU130, name, ctx)
}
func (b *U130) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU130, name, ctx)
}
func (b *U130) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU130, name, s, left, ctx)
}
func (b *U130) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU130, name, r, left, ctx)
}
func (b *U130) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU130, name, w, ctx)
}

func (*U130) GetType() mp4.BoxType { return mp4.StrToBoxType("u130") }

type U131 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8     `mp4:"1,size=8"`
	F1267       string    `mp4:"2,string=c_p,nopt=0x4"`
	F1268       [1]uint32 `mp4:"3,varint"`
	F1269       []Octet   `mp4:"4,len=2,size=8"`
	F1270       S1271     `mp4:"5"`
	F1273       [3]uint8  `mp4:"6,size=8,opt=0x100"`
	Tail        []uint8   `mp4:"7,dec,len=dynamic,size=1"`
	Last        string    `mp4:"8,string"`
}

var specU131 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1267", Kind: "string", NOpt: 4, Ver: -1, NVer: -1, CP: true},
	{Name: "F1268", Kind: "array", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}},
	{Name: "F1269", Kind: "slice", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1270", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1271", Fields: []*F{{Name: "F1272", Kind: "uint", Bits: 48, Ver: -1, NVer: -1}}},
	{Name: "F1273", Kind: "array", Bits: 8, Len: 3, Opt: 256, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1},
}

func (b *U131) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU131, name, ctx)
}
func (b *U131) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU131, name, ctx)
}
func (b *U131) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU131, name, ctx)
}
func (b *U131) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU131, name, s, left, ctx)
}
func (b *U131) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU131, name, r, left, ctx)
}
func (b *U131) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU131, name, w, ctx)
}

func (*U131) GetType() mp4.BoxType { return mp4.StrToBoxType("u131") }

type U132 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F1276       S1277    `mp4:"2,ver=2"`
	F1280Len    uint16   `mp4:"3,size=16"`
	F1280       []string `mp4:"4,string,len=dynamic"`
	F1281On     bool     `mp4:"5,size=8"`
	F1281       bool     `mp4:"6,opt=dynamic,size=16"`
	F1282       *S1283   `mp4:"7"`
	Tail        []uint8  `mp4:"8,len=dynamic,size=1"`
	Last        string   `mp4:"9,string"`
}

var specU132 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1276", Kind: "struct", Ver: 2, NVer: -1, Sub: "S1277", Fields: []*F{{Name: "F1278", Kind: "slice", Bits: 8, Len: 5, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1279", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}}},
	{Name: "F1280Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1280", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "F1281On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1281", Kind: "bool", Bits: 16, Ver: -1, NVer: -1, OptDyn: true},
	{Name: "F1282", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1283", Fields: []*F{{Name: "F1284", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1285", Fields: []*F{{Name: "F1286Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1}, {Name: "F1286", Kind: "slice", Bits: 8, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1287", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}, {Name: "F1288", Kind: "slice", Len: 4, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}}}}}, {Name: "F1289", Kind: "uint", Bits: 16, Ver: -1, NVer: 0}, {Name: "F1290", Kind: "slice", Bits: 8, Len: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1},
}

func (b *U132) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU132, name, ctx)
}
func (b *U132) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU132, name, ctx)
}
func (b *U132) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU132, name, ctx)
}
func (b *U132) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU132, name, s, left, ctx)
}
func (b *U132) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU132, name, r, left, ctx)
}
func (b *U132) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU132, name, w, ctx)
}

func (*U132) GetType() mp4.BoxType { return mp4.StrToBoxType("u132") }

type U133 struct {
	mp4.FullBox `mp4:"0,extend"`
	F1293Bits   uint8   `mp4:"2,size=8"`
	F1293       int32   `mp4:"3,size=dynamic"`
	Tail        []uint8 `mp4:"4,size=1,len=dynamic"`
	TailLen     uint8   `mp4:"1,size=8"`
}

var specU133 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1293Bits", Kind: "uint", Bits: 8, Max: 32, Min: 1, Ver: -1, NVer: -1},
	{Name: "F1293", Kind: "int", Ver: -1, NVer: -1, DynBits: true},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U133) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU133, name, ctx)
}
func (b *U133) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU133, name, ctx)
}
func (b *U133) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU133, name, ctx)
}
func (b *U133) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU133, name, s, left, ctx)
}
func (b *U133) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU133, name, r, left, ctx)
}
func (b *U133) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU133, name, w, ctx)
}

func (*U133) GetType() mp4.BoxType { return mp4.StrToBoxType("u133") }

type U134 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	Last        string   `mp4:"4,string=c_p"`
	Tail        []uint8  `mp4:"3,size=1,len=dynamic"`
	F1296       []*S1297 `mp4:"2,len=5,nver=0"`
}

var specU134 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1296", Kind: "slice", Len: 5, Ver: -1, NVer: 0, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1297", Fields: []*F{{Name: "F1298", Kind: "bool", Bits: 1, NOpt: 256, Ver: -1, NVer: -1}}}}},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, CP: true},
}

func (b *U134) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU134, name, ctx)
}
func (b *U134) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU134, name, ctx)
}
func (b *U134) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU134, name, ctx)
}
func (b *U134) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU134, name, s, left, ctx)
}
func (b *U134) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU134, name, r, left, ctx)
}
func (b *U134) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU134, name, w, ctx)
}

func (*U134) GetType() mp4.BoxType { return mp4.StrToBoxType("u134") }

type U135 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8   `mp4:"1,size=8"`
	F1301       uint32  `mp4:"2,size=32"`
	Tail        []uint8 `mp4:"3,len=dynamic,size=1"`
	Last        []byte  `mp4:"4,size=8"`
}

var specU135 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1301", Kind: "uint", Bits: 32, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
}

func (b *U135) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU135, name, ctx)
}
func (b *U135) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU135, name, ctx)
}
func (b *U135) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU135, name, ctx)
}
func (b *U135) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU135, name, s, left, ctx)
}
func (b *U135) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU135, name, r, left, ctx)
}
func (b *U135) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU135, name, w, ctx)
}

func (*U135) GetType() mp4.BoxType { return mp4.StrToBoxType("u135") }

type U136 struct {
	mp4.FullBox `mp4:"0,extend"`
	F1308       S1309    `mp4:"3"`
	TailLen     uint8    `mp4:"1,size=8"`
	F1324       uint8    `mp4:"8,size=8"`
	F1315       *S1316   `mp4:"7"`
	Tail        []uint8  `mp4:"9,size=1,hex,len=dynamic"`
	F1313       int32    `mp4:"4,size=31"`
	F1314Len    uint16   `mp4:"5,size=16"`
	F1314       []string `mp4:"6,len=dynamic,string"`
	Last        []int32  `mp4:"10,size=24"`
	F1304       *S1305   `mp4:"2"`
}

var specU136 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1304", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1305", Fields: []*F{{Name: "F1306", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}}, {Name: "F1307", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}}}},
	{Name: "F1308", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1309", Fields: []*F{{Name: "F1310", Kind: "slice", Bits: 8, Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1311", Kind: "array", Bits: 8, Len: 2, Opt: 2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1312", Kind: "int", Bits: 64, Ver: -1, NVer: -1}}},
	{Name: "F1313", Kind: "int", Bits: 31, Ver: -1, NVer: -1},
	{Name: "F1314Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1314", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "F1315", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1316", Fields: []*F{{Name: "F1317", Kind: "uint", Bits: 30, HookBits: 15, Ver: -1, NVer: -1, Hook: "prefix"}, {Name: "F1318", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1319", Fields: []*F{{Name: "F1320", Kind: "slice", Len: 6, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}}, {Name: "F1321", Kind: "uint", Bits: 3, Opt: 2, Ver: -1, NVer: -1}, {Name: "F1322", Kind: "uint", Bits: 29, Ver: -1, NVer: -1}}}}, {Name: "F1323", Kind: "uint", Bits: 24, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"}}}},
	{Name: "F1324", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "slice", Bits: 24, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "int", Bits: 24, Ver: -1, NVer: -1}},
}

func (b *U136) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU136, name, ctx)
}
func (b *U136) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU136, name, ctx)
}
func (b *U136) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU136, name, ctx)
}
func (b *U136) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU136, name, s, left, ctx)
}
func (b *U136) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU136, name, r, left, ctx)
}
func (b *U136) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU136, name, w, ctx)
}

func (*U136) GetType() mp4.BoxType { return mp4.StrToBoxType("u136") }

type U137 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F1327Bits   uint8    `mp4:"2,size=8"`
	F1327       S1328    `mp4:"3,size=dynamic"`
	F1329       []*S1330 `mp4:"4,len=1"`
	F1334       bool     `mp4:"5,size=8,nver=2"`
	F1335       uint64   `mp4:"6,size=32,nopt=0x1"`
	Tail        []uint8  `mp4:"7,len=dynamic,size=1"`
}

var specU137 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1327Bits", Kind: "uint", Bits: 8, Max: 15, Min: 2, Ver: -1, NVer: -1, Times8: true},
	{Name: "F1327", Kind: "struct", Ver: -1, NVer: -1, DynBits: true, Sub: "S1328", Fields: []*F{{Name: "A1328", Kind: "uint", Bits: 16, Ver: -1, NVer: -1}, {Name: "B1328", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}},
	{Name: "F1329", Kind: "slice", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1330", Fields: []*F{{Name: "F1331", Kind: "slice", Bits: 8, Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1332", Kind: "array", Bits: 8, Len: 1, Opt: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}, {Name: "F1333", Kind: "varint", Ver: -1, NVer: -1}}}}},
	{Name: "F1334", Kind: "bool", Bits: 8, HookBits: 8, Ver: -1, NVer: 2, Hook: "prefix"},
	{Name: "F1335", Kind: "uint", Bits: 32, NOpt: 1, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
}

func (b *U137) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU137, name, ctx)
}
func (b *U137) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU137, name, ctx)
}
func (b *U137) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU137, name, ctx)
}
func (b *U137) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU137, name, s, left, ctx)
}
func (b *U137) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU137, name, r, left, ctx)
}
func (b *U137) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU137, name, w, ctx)
}

func (*U137) GetType() mp4.BoxType { return mp4.StrToBoxType("u137") }

type U138 struct {
	mp4.AnyTypeBox
	F1348   *S1349   `mp4:"5"`
	F1352   uint64   `mp4:"7,size=64"`
	Last    string   `mp4:"9,string=c_p"`
	F1347   uint32   `mp4:"4,size=8"`
	TailLen uint8    `mp4:"1,size=8"`
	Tail    []uint8  `mp4:"8,size=1,len=dynamic"`
	F1346   int64    `mp4:"3,size=48"`
	F1338   [1]S1339 `mp4:"2"`
	F1351   int64    `mp4:"6,size=53"`
}

var specU138 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1338", Kind: "array", Len: 1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1339", Fields: []*F{{Name: "F1340", Kind: "slice", Len: 3, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1341", Fields: []*F{{Name: "F1342Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1}, {Name: "F1342", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "varint", Ver: -1, NVer: -1}}, {Name: "F1343", Kind: "bool", Bits: 8, HookBits: 16, Ver: -1, NVer: -1, Hook: "prefix"}, {Name: "F1344On", Kind: "bool", Bits: 8, Ver: -1, NVer: -1}, {Name: "F1344", Kind: "string", Ver: -1, NVer: -1, OptDyn: true}}}}}, {Name: "F1345", Kind: "varint", Ver: -1, NVer: -1}}}},
	{Name: "F1346", Kind: "int", Bits: 48, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "F1347", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1348", Kind: "ptr", Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "struct", Ver: -1, NVer: -1, Sub: "S1349", Fields: []*F{{Name: "F1350", Kind: "bool", Bits: 1, Ver: -1, NVer: -1}}}},
	{Name: "F1351", Kind: "int", Bits: 53, Ver: -1, NVer: -1},
	{Name: "F1352", Kind: "uint", Bits: 64, HookBits: 8, Ver: -1, NVer: -1, Hook: "prefix"},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1, CP: true},
}

func (b *U138) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU138, name, ctx)
}
func (b *U138) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU138, name, ctx)
}
func (b *U138) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU138, name, ctx)
}
func (b *U138) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU138, name, s, left, ctx)
}
func (b *U138) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU138, name, r, left, ctx)
}
func (b *U138) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU138, name, w, ctx)
}

func (b *U138) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return before(r, 1, size, ctx)
}

type U139 struct {
	mp4.FullBox `mp4:"0,extend"`
	TailLen     uint8    `mp4:"1,size=8"`
	F1355Len    uint16   `mp4:"2,size=16"`
	Tail        []uint8  `mp4:"8,len=dynamic,size=1"`
	F1360       uint64   `mp4:"7,opt=0x2,size=27"`
	F1355       []string `mp4:"3,string,len=dynamic"`
	F1356       string   `mp4:"4,nopt=0x1,string"`
	F1357       [2]uint8 `mp4:"5,opt=0x100,size=8"`
	Last        string   `mp4:"9,string"`
	F1358       S1359    `mp4:"6,size=48"`
}

var specU139 = []*F{
	{Name: "TailLen", Kind: "uint", Bits: 8, Ver: -1, NVer: -1},
	{Name: "F1355Len", Kind: "uint", Bits: 16, Max: 9, Ver: -1, NVer: -1},
	{Name: "F1355", Kind: "slice", Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "string", Ver: -1, NVer: -1}},
	{Name: "F1356", Kind: "string", NOpt: 1, Ver: -1, NVer: -1},
	{Name: "F1357", Kind: "array", Bits: 8, Len: 2, Opt: 256, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}},
	{Name: "F1358", Kind: "struct", Sized: 48, Ver: -1, NVer: -1, Sub: "S1359", Fields: []*F{{Name: "A1359", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}, {Name: "B1359", Kind: "slice", Bits: 8, Len: -1, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 8, Ver: -1, NVer: -1}}}},
	{Name: "F1360", Kind: "uint", Bits: 27, Opt: 2, Ver: -1, NVer: -1},
	{Name: "Tail", Kind: "slice", Bits: 1, Len: -2, Ver: -1, NVer: -1, Elem: &F{Name: "", Kind: "uint", Bits: 1, Ver: -1, NVer: -1}},
	{Name: "Last", Kind: "string", Ver: -1, NVer: -1},
}

func (b *U139) GetFieldSize(name string, ctx mp4.Context) uint {
	return fieldSize(b, specU139, name, ctx)
}
func (b *U139) GetFieldLength(name string, ctx mp4.Context) uint {
	return fieldLength(b, specU139, name, ctx)
}
func (b *U139) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return fieldEnabled(b, specU139, name, ctx)
}
func (b *U139) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool {
	return isPString(b, specU139, name, s, left, ctx)
}
func (b *U139) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return onRead(b, specU139, name, r, left, ctx)
}
func (b *U139) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) {
	return onWrite(b, specU139, name, w, ctx)
}

func (*U139) GetType() mp4.BoxType { return mp4.StrToBoxType("u139") }

func init() {
	register(func() { mp4.AddBoxDef(&U00{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u000"), Full: true, New: func() mp4.IBox { return &U00{} }, Fields: specU00, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U01{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u001"), Full: true, New: func() mp4.IBox { return &U01{} }, Fields: specU01, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U02{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u002"), Full: true, New: func() mp4.IBox { return &U02{} }, Fields: specU02, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U03{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u003"), Full: true, New: func() mp4.IBox { return &U03{} }, Fields: specU03, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U04{}, 0, 1) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u004"), Full: true, New: func() mp4.IBox { return &U04{} }, Fields: specU04, Versions: []uint8{0, 1}, Before: 0})
	register(func() { mp4.AddBoxDef(&U05{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u005"), Full: true, New: func() mp4.IBox { return &U05{} }, Fields: specU05, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U06{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u006"), Full: false, New: func() mp4.IBox { return &U06{} }, Fields: specU06, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U07{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u007"), Full: true, New: func() mp4.IBox { return &U07{} }, Fields: specU07, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U08{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u008"), Full: true, New: func() mp4.IBox { return &U08{} }, Fields: specU08, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U09{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u009"), Full: true, New: func() mp4.IBox { return &U09{} }, Fields: specU09, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U10{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u010"), Full: false, New: func() mp4.IBox { return &U10{} }, Fields: specU10, Versions: []uint8{}, Before: 4})
	register(func() { mp4.AddBoxDef(&U11{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u011"), Full: false, New: func() mp4.IBox { return &U11{} }, Fields: specU11, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U12{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u012"), Full: false, New: func() mp4.IBox { return &U12{} }, Fields: specU12, Versions: []uint8{}, Before: 1})
	register(func() { mp4.AddAnyTypeBoxDef(&U13{}, mp4.StrToBoxType("a013")) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("a013"), Any: true, New: func() mp4.IBox { return &U13{} }, Fields: specU13, Versions: []uint8{}, Before: 4})
	register(func() { mp4.AddAnyTypeBoxDef(&U13{}, mp4.StrToBoxType("b013")) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("b013"), Any: true, New: func() mp4.IBox { return &U13{} }, Fields: specU13, Versions: []uint8{}, Before: 4})
	register(func() { mp4.AddBoxDef(&U14{}, 0, 1) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u014"), Full: true, New: func() mp4.IBox { return &U14{} }, Fields: specU14, Versions: []uint8{0, 1}, Before: 0})
	register(func() { mp4.AddBoxDef(&U15{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u015"), Full: true, New: func() mp4.IBox { return &U15{} }, Fields: specU15, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U16{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u016"), Full: true, New: func() mp4.IBox { return &U16{} }, Fields: specU16, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U17{}, 0, 1) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u017"), Full: true, New: func() mp4.IBox { return &U17{} }, Fields: specU17, Versions: []uint8{0, 1}, Before: 0})
	register(func() { mp4.AddBoxDef(&U18{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u018"), Full: true, New: func() mp4.IBox { return &U18{} }, Fields: specU18, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U19{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u019"), Full: true, New: func() mp4.IBox { return &U19{} }, Fields: specU19, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U20{}, 0, 1) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u020"), Full: true, New: func() mp4.IBox { return &U20{} }, Fields: specU20, Versions: []uint8{0, 1}, Before: 0})
	register(func() { mp4.AddBoxDef(&U21{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u021"), Full: true, New: func() mp4.IBox { return &U21{} }, Fields: specU21, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U22{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u022"), Full: false, New: func() mp4.IBox { return &U22{} }, Fields: specU22, Versions: []uint8{}, Before: 1})
	register(func() { mp4.AddBoxDef(&U23{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u023"), Full: true, New: func() mp4.IBox { return &U23{} }, Fields: specU23, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U24{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u024"), Full: true, New: func() mp4.IBox { return &U24{} }, Fields: specU24, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U25{}, 0, 1) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u025"), Full: true, New: func() mp4.IBox { return &U25{} }, Fields: specU25, Versions: []uint8{0, 1}, Before: 0})
	register(func() { mp4.AddBoxDef(&U26{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u026"), Full: true, New: func() mp4.IBox { return &U26{} }, Fields: specU26, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U27{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u027"), Full: true, New: func() mp4.IBox { return &U27{} }, Fields: specU27, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U28{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u028"), Full: true, New: func() mp4.IBox { return &U28{} }, Fields: specU28, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U29{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u029"), Full: true, New: func() mp4.IBox { return &U29{} }, Fields: specU29, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U30{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u030"), Full: true, New: func() mp4.IBox { return &U30{} }, Fields: specU30, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U31{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u031"), Full: true, New: func() mp4.IBox { return &U31{} }, Fields: specU31, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U32{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u032"), Full: false, New: func() mp4.IBox { return &U32{} }, Fields: specU32, Versions: []uint8{}, Before: 1})
	register(func() { mp4.AddBoxDef(&U33{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u033"), Full: false, New: func() mp4.IBox { return &U33{} }, Fields: specU33, Versions: []uint8{}, Before: 4})
	register(func() { mp4.AddBoxDef(&U34{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u034"), Full: true, New: func() mp4.IBox { return &U34{} }, Fields: specU34, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U35{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u035"), Full: true, New: func() mp4.IBox { return &U35{} }, Fields: specU35, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U36{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u036"), Full: true, New: func() mp4.IBox { return &U36{} }, Fields: specU36, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U37{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u037"), Full: true, New: func() mp4.IBox { return &U37{} }, Fields: specU37, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U38{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u038"), Full: true, New: func() mp4.IBox { return &U38{} }, Fields: specU38, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U39{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u039"), Full: true, New: func() mp4.IBox { return &U39{} }, Fields: specU39, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U40{}, 0, 1) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u040"), Full: true, New: func() mp4.IBox { return &U40{} }, Fields: specU40, Versions: []uint8{0, 1}, Before: 0})
	register(func() { mp4.AddBoxDef(&U41{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u041"), Full: true, New: func() mp4.IBox { return &U41{} }, Fields: specU41, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U42{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u042"), Full: true, New: func() mp4.IBox { return &U42{} }, Fields: specU42, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddAnyTypeBoxDef(&U43{}, mp4.StrToBoxType("a043")) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("a043"), Any: true, New: func() mp4.IBox { return &U43{} }, Fields: specU43, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddAnyTypeBoxDef(&U43{}, mp4.StrToBoxType("b043")) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("b043"), Any: true, New: func() mp4.IBox { return &U43{} }, Fields: specU43, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U44{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u044"), Full: false, New: func() mp4.IBox { return &U44{} }, Fields: specU44, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U45{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u045"), Full: true, New: func() mp4.IBox { return &U45{} }, Fields: specU45, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U46{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u046"), Full: true, New: func() mp4.IBox { return &U46{} }, Fields: specU46, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddAnyTypeBoxDef(&U47{}, mp4.StrToBoxType("a047")) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("a047"), Any: true, New: func() mp4.IBox { return &U47{} }, Fields: specU47, Versions: []uint8{}, Before: 4})
	register(func() { mp4.AddAnyTypeBoxDef(&U47{}, mp4.StrToBoxType("b047")) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("b047"), Any: true, New: func() mp4.IBox { return &U47{} }, Fields: specU47, Versions: []uint8{}, Before: 4})
	register(func() { mp4.AddBoxDef(&U48{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u048"), Full: true, New: func() mp4.IBox { return &U48{} }, Fields: specU48, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U49{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u049"), Full: false, New: func() mp4.IBox { return &U49{} }, Fields: specU49, Versions: []uint8{}, Before: 4})
	register(func() { mp4.AddBoxDef(&U50{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u050"), Full: false, New: func() mp4.IBox { return &U50{} }, Fields: specU50, Versions: []uint8{}, Before: 4})
	register(func() { mp4.AddBoxDef(&U51{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u051"), Full: true, New: func() mp4.IBox { return &U51{} }, Fields: specU51, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U52{}, 0, 1) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u052"), Full: true, New: func() mp4.IBox { return &U52{} }, Fields: specU52, Versions: []uint8{0, 1}, Before: 0})
	register(func() { mp4.AddBoxDef(&U53{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u053"), Full: true, New: func() mp4.IBox { return &U53{} }, Fields: specU53, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U54{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u054"), Full: true, New: func() mp4.IBox { return &U54{} }, Fields: specU54, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U55{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u055"), Full: true, New: func() mp4.IBox { return &U55{} }, Fields: specU55, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U56{}, 0, 1) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u056"), Full: true, New: func() mp4.IBox { return &U56{} }, Fields: specU56, Versions: []uint8{0, 1}, Before: 0})
	register(func() { mp4.AddBoxDef(&U57{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u057"), Full: true, New: func() mp4.IBox { return &U57{} }, Fields: specU57, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U58{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u058"), Full: true, New: func() mp4.IBox { return &U58{} }, Fields: specU58, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U59{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u059"), Full: true, New: func() mp4.IBox { return &U59{} }, Fields: specU59, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U60{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u060"), Full: true, New: func() mp4.IBox { return &U60{} }, Fields: specU60, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U61{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u061"), Full: true, New: func() mp4.IBox { return &U61{} }, Fields: specU61, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U62{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u062"), Full: true, New: func() mp4.IBox { return &U62{} }, Fields: specU62, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U63{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u063"), Full: false, New: func() mp4.IBox { return &U63{} }, Fields: specU63, Versions: []uint8{}, Before: 4})
	register(func() { mp4.AddBoxDef(&U64{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u064"), Full: true, New: func() mp4.IBox { return &U64{} }, Fields: specU64, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U65{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u065"), Full: true, New: func() mp4.IBox { return &U65{} }, Fields: specU65, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U66{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u066"), Full: true, New: func() mp4.IBox { return &U66{} }, Fields: specU66, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U67{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u067"), Full: true, New: func() mp4.IBox { return &U67{} }, Fields: specU67, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U68{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u068"), Full: true, New: func() mp4.IBox { return &U68{} }, Fields: specU68, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U69{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u069"), Full: true, New: func() mp4.IBox { return &U69{} }, Fields: specU69, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U70{}, 0, 1) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u070"), Full: true, New: func() mp4.IBox { return &U70{} }, Fields: specU70, Versions: []uint8{0, 1}, Before: 0})
	register(func() { mp4.AddAnyTypeBoxDef(&U71{}, mp4.StrToBoxType("a071")) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("a071"), Any: true, New: func() mp4.IBox { return &U71{} }, Fields: specU71, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddAnyTypeBoxDef(&U71{}, mp4.StrToBoxType("b071")) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("b071"), Any: true, New: func() mp4.IBox { return &U71{} }, Fields: specU71, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U72{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u072"), Full: true, New: func() mp4.IBox { return &U72{} }, Fields: specU72, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U73{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u073"), Full: false, New: func() mp4.IBox { return &U73{} }, Fields: specU73, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U74{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u074"), Full: true, New: func() mp4.IBox { return &U74{} }, Fields: specU74, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U75{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u075"), Full: false, New: func() mp4.IBox { return &U75{} }, Fields: specU75, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U76{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u076"), Full: false, New: func() mp4.IBox { return &U76{} }, Fields: specU76, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U77{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u077"), Full: true, New: func() mp4.IBox { return &U77{} }, Fields: specU77, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U78{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u078"), Full: true, New: func() mp4.IBox { return &U78{} }, Fields: specU78, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U79{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u079"), Full: true, New: func() mp4.IBox { return &U79{} }, Fields: specU79, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U80{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u080"), Full: true, New: func() mp4.IBox { return &U80{} }, Fields: specU80, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U81{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u081"), Full: true, New: func() mp4.IBox { return &U81{} }, Fields: specU81, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U82{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u082"), Full: true, New: func() mp4.IBox { return &U82{} }, Fields: specU82, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U83{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u083"), Full: false, New: func() mp4.IBox { return &U83{} }, Fields: specU83, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U84{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u084"), Full: true, New: func() mp4.IBox { return &U84{} }, Fields: specU84, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U85{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u085"), Full: true, New: func() mp4.IBox { return &U85{} }, Fields: specU85, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U86{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u086"), Full: false, New: func() mp4.IBox { return &U86{} }, Fields: specU86, Versions: []uint8{}, Before: 4})
	register(func() { mp4.AddBoxDef(&U87{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u087"), Full: false, New: func() mp4.IBox { return &U87{} }, Fields: specU87, Versions: []uint8{}, Before: 1})
	register(func() { mp4.AddBoxDef(&U88{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u088"), Full: true, New: func() mp4.IBox { return &U88{} }, Fields: specU88, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U89{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u089"), Full: true, New: func() mp4.IBox { return &U89{} }, Fields: specU89, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U90{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u090"), Full: false, New: func() mp4.IBox { return &U90{} }, Fields: specU90, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U91{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u091"), Full: true, New: func() mp4.IBox { return &U91{} }, Fields: specU91, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U92{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u092"), Full: false, New: func() mp4.IBox { return &U92{} }, Fields: specU92, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U93{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u093"), Full: false, New: func() mp4.IBox { return &U93{} }, Fields: specU93, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U94{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u094"), Full: true, New: func() mp4.IBox { return &U94{} }, Fields: specU94, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U95{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u095"), Full: false, New: func() mp4.IBox { return &U95{} }, Fields: specU95, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U96{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u096"), Full: false, New: func() mp4.IBox { return &U96{} }, Fields: specU96, Versions: []uint8{}, Before: 1})
	register(func() { mp4.AddBoxDef(&U97{}, 0, 1) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u097"), Full: true, New: func() mp4.IBox { return &U97{} }, Fields: specU97, Versions: []uint8{0, 1}, Before: 0})
	register(func() { mp4.AddBoxDef(&U98{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u098"), Full: true, New: func() mp4.IBox { return &U98{} }, Fields: specU98, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U99{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u099"), Full: false, New: func() mp4.IBox { return &U99{} }, Fields: specU99, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U100{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u100"), Full: true, New: func() mp4.IBox { return &U100{} }, Fields: specU100, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddAnyTypeBoxDef(&U101{}, mp4.StrToBoxType("a101")) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("a101"), Any: true, New: func() mp4.IBox { return &U101{} }, Fields: specU101, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddAnyTypeBoxDef(&U101{}, mp4.StrToBoxType("b101")) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("b101"), Any: true, New: func() mp4.IBox { return &U101{} }, Fields: specU101, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U102{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u102"), Full: true, New: func() mp4.IBox { return &U102{} }, Fields: specU102, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U103{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u103"), Full: true, New: func() mp4.IBox { return &U103{} }, Fields: specU103, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U104{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u104"), Full: false, New: func() mp4.IBox { return &U104{} }, Fields: specU104, Versions: []uint8{}, Before: 4})
	register(func() { mp4.AddBoxDef(&U105{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u105"), Full: true, New: func() mp4.IBox { return &U105{} }, Fields: specU105, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U106{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u106"), Full: true, New: func() mp4.IBox { return &U106{} }, Fields: specU106, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U107{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u107"), Full: true, New: func() mp4.IBox { return &U107{} }, Fields: specU107, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U108{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u108"), Full: false, New: func() mp4.IBox { return &U108{} }, Fields: specU108, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U109{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u109"), Full: true, New: func() mp4.IBox { return &U109{} }, Fields: specU109, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U110{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u110"), Full: true, New: func() mp4.IBox { return &U110{} }, Fields: specU110, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U111{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u111"), Full: true, New: func() mp4.IBox { return &U111{} }, Fields: specU111, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U112{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u112"), Full: true, New: func() mp4.IBox { return &U112{} }, Fields: specU112, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U113{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u113"), Full: false, New: func() mp4.IBox { return &U113{} }, Fields: specU113, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U114{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u114"), Full: true, New: func() mp4.IBox { return &U114{} }, Fields: specU114, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U115{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u115"), Full: true, New: func() mp4.IBox { return &U115{} }, Fields: specU115, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddAnyTypeBoxDef(&U116{}, mp4.StrToBoxType("a116")) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("a116"), Any: true, New: func() mp4.IBox { return &U116{} }, Fields: specU116, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddAnyTypeBoxDef(&U116{}, mp4.StrToBoxType("b116")) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("b116"), Any: true, New: func() mp4.IBox { return &U116{} }, Fields: specU116, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U117{}, 0, 1) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u117"), Full: true, New: func() mp4.IBox { return &U117{} }, Fields: specU117, Versions: []uint8{0, 1}, Before: 0})
	register(func() { mp4.AddBoxDef(&U118{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u118"), Full: false, New: func() mp4.IBox { return &U118{} }, Fields: specU118, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U119{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u119"), Full: true, New: func() mp4.IBox { return &U119{} }, Fields: specU119, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U120{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u120"), Full: true, New: func() mp4.IBox { return &U120{} }, Fields: specU120, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U121{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u121"), Full: true, New: func() mp4.IBox { return &U121{} }, Fields: specU121, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U122{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u122"), Full: true, New: func() mp4.IBox { return &U122{} }, Fields: specU122, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U123{}, 0, 1) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u123"), Full: true, New: func() mp4.IBox { return &U123{} }, Fields: specU123, Versions: []uint8{0, 1}, Before: 0})
	register(func() { mp4.AddBoxDef(&U124{}, 0, 1) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u124"), Full: true, New: func() mp4.IBox { return &U124{} }, Fields: specU124, Versions: []uint8{0, 1}, Before: 0})
	register(func() { mp4.AddBoxDef(&U125{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u125"), Full: true, New: func() mp4.IBox { return &U125{} }, Fields: specU125, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U126{}, 0, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u126"), Full: true, New: func() mp4.IBox { return &U126{} }, Fields: specU126, Versions: []uint8{0, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U127{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u127"), Full: true, New: func() mp4.IBox { return &U127{} }, Fields: specU127, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U128{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u128"), Full: false, New: func() mp4.IBox { return &U128{} }, Fields: specU128, Versions: []uint8{}, Before: 1})
	register(func() { mp4.AddBoxDef(&U129{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u129"), Full: false, New: func() mp4.IBox { return &U129{} }, Fields: specU129, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U130{}, 0, 1) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u130"), Full: true, New: func() mp4.IBox { return &U130{} }, Fields: specU130, Versions: []uint8{0, 1}, Before: 0})
	register(func() { mp4.AddBoxDef(&U131{}, 0) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u131"), Full: true, New: func() mp4.IBox { return &U131{} }, Fields: specU131, Versions: []uint8{0}, Before: 0})
	register(func() { mp4.AddBoxDef(&U132{}) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u132"), Full: true, New: func() mp4.IBox { return &U132{} }, Fields: specU132, Versions: []uint8{}, Before: 0})
	register(func() { mp4.AddBoxDef(&U133{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u133"), Full: true, New: func() mp4.IBox { return &U133{} }, Fields: specU133, Versions: []uint8{0, 1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U134{}, 0, 1) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u134"), Full: true, New: func() mp4.IBox { return &U134{} }, Fields: specU134, Versions: []uint8{0, 1}, Before: 0})
	register(func() { mp4.AddBoxDef(&U135{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u135"), Full: true, New: func() mp4.IBox { return &U135{} }, Fields: specU135, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U136{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u136"), Full: true, New: func() mp4.IBox { return &U136{} }, Fields: specU136, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddBoxDef(&U137{}, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u137"), Full: true, New: func() mp4.IBox { return &U137{} }, Fields: specU137, Versions: []uint8{1, 2}, Before: 0})
	register(func() { mp4.AddAnyTypeBoxDef(&U138{}, mp4.StrToBoxType("a138")) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("a138"), Any: true, New: func() mp4.IBox { return &U138{} }, Fields: specU138, Versions: []uint8{}, Before: 1})
	register(func() { mp4.AddAnyTypeBoxDef(&U138{}, mp4.StrToBoxType("b138")) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("b138"), Any: true, New: func() mp4.IBox { return &U138{} }, Fields: specU138, Versions: []uint8{}, Before: 1})
	register(func() { mp4.AddBoxDef(&U139{}, 0, 1, 2) })
	Boxes = append(Boxes, &B{Type: mp4.StrToBoxType("u139"), Full: true, New: func() mp4.IBox { return &U139{} }, Fields: specU139, Versions: []uint8{0, 1, 2}, Before: 0})
}
