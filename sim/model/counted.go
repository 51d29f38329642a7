package model

import (
	"reflect"

	"github.com/abema/go-mp4"
	"verifsim/core"
)

// counted names the arrays whose number of elements another field of the box
// (or the format) fixes.
var counted = map[string]bool{
	"Co64.ChunkOffset": true, "Ctts.Entries": true, "Elst.Entries": true, "HEVCNalu.NALUnit": true, "HEVCNaluArray.Nalus": true, "HvcC.NaluArrays": true,
	"Saio.OffsetV0": true, "Saio.OffsetV1": true, "Saiz.SampleInfoSize": true, "AudioSampleEntry.QuickTimeData": true,
	"AVCDecoderConfiguration.SequenceParameterSets": true, "AVCDecoderConfiguration.PictureParameterSets": true, "AVCDecoderConfiguration.SequenceParameterSetsExt": true, "AVCParameterSet.NALUnit": true,
	"Sbgp.Entries": true, "Sgpd.RollDistancesL": true, "Sgpd.AlternativeStartupEntries": true, "Sgpd.AlternativeStartupEntriesL": true,
	"Sgpd.VisualRandomAccessEntries": true, "Sgpd.VisualRandomAccessEntriesL": true, "Sgpd.TemporalLevelEntries": true, "Sgpd.TemporalLevelEntriesL": true,
	"AlternativeStartupEntry.SampleOffset": true, "Sidx.References": true, "Stco.ChunkOffset": true, "Stsc.Entries": true, "Stss.SampleNumber": true,
	"Stsz.EntrySize": true, "Stts.Entries": true, "Tfra.Entries": true, "Trun.Entries": true, "Descriptor.Data": true, "ESDescriptor.URLString": true,
	"Pssh.KIDs": true, "Pssh.Data": true, "Tenc.DefaultConstantIV": true, "Item.ItemName": true, "Keys.Entries": true, "Key.KeyNamespace": true, "Key.KeyValue": true,
	"DOps.ChannelMapping": true, "VpcC.CodecInitializationData": true,
}

func countedFields(v reflect.Value, c mp4.Context) (r []reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			r = countedFields(v.Elem(), c)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			n := v.Type().Name() + "." + v.Type().Field(i).Name
			if f.Kind() == reflect.Slice && f.CanSet() && counted[n] && !(n == "AudioSampleEntry.QuickTimeData" && c.UnderWave) {
				r = append(r, f)
			}
			r = append(r, countedFields(f, c)...)
		}
	case reflect.Slice, reflect.Array:
		if k := v.Type().Elem().Kind(); k == reflect.Struct || k == reflect.Ptr {
			for i := 0; i < v.Len() && i < 4; i++ {
				r = append(r, countedFields(v.Index(i), c)...)
			}
		}
	}
	return
}

// Surplus returns a copy of a box in which one counted array has more elements
// than the box says (nil: it has no counted array).
func Surplus(s *core.Src, box mp4.IBox, c mp4.Context) mp4.IBox {
	cp := DeepCopy(box).(mp4.IBox)
	l := countedFields(reflect.ValueOf(cp), c)
	if len(l) == 0 {
		return nil
	}
	f := l[s.N(len(l))]
	for k := s.N(3); k >= 0; k-- {
		e := reflect.New(f.Type().Elem()).Elem()
		if e.Kind() == reflect.Uint8 || e.Kind() == reflect.Uint32 {
			e.SetUint(0xa5)
		}
		f.Set(reflect.Append(f, e))
	}
	return cp
}

// Lack returns a copy of a box in which one counted array has fewer elements
// than the box says (nil: no counted array has any).
func Lack(s *core.Src, box mp4.IBox, c mp4.Context) mp4.IBox {
	cp := DeepCopy(box).(mp4.IBox)
	var l []reflect.Value
	for _, f := range countedFields(reflect.ValueOf(cp), c) {
		if f.Len() > 0 {
			l = append(l, f)
		}
	}
	if len(l) == 0 {
		return nil
	}
	f := l[s.N(len(l))]
	f.Set(f.Slice(0, f.Len()-1-s.N(f.Len())))
	return cp
}
