package model

import (
	"strings"

	"github.com/abema/go-mp4"
)

func ts(ss ...string) (r []mp4.BoxType) {
	for _, s := range ss {
		r = append(r, T(s))
	}
	return
}

// containers whose own payload is empty
func container(name string, mk func() mp4.IBox) {
	def(&Def{Name: name, Types: ts(name), Container: true, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) { return mk(), true }})
}

func simple(name string, gen func(g *G) mp4.IBox) {
	def(&Def{Name: name, Types: ts(name), Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) { return gen(g), true }})
}

// full boxes: versions is the number of supported versions starting at 0
func fullbox(name string, versions int, gen func(g *G, v uint8) mp4.IBox) *Def {
	var vs []uint8
	for i := 0; i < versions; i++ {
		vs = append(vs, uint8(i))
	}
	d := &Def{Name: name, Types: ts(name), FullVersions: vs, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		return gen(g, g.ver(versions)), true
	}}
	def(d)
	return d
}

func tail(name string, gen func(g *G) mp4.IBox) {
	def(&Def{Name: name, Types: ts(name), Tail: true, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) { return gen(g), true }})
}

func sampleEntry(g *G, t mp4.BoxType) mp4.SampleEntry {
	var e mp4.SampleEntry
	e.Type = t
	g.fix(e.Reserved[:])
	e.DataReferenceIndex = g.u16()
	return e
}

func brands(g *G, n int) (r []mp4.CompatibleBrandElem) {
	for i := 0; i < n; i++ {
		var b [4]byte
		switch g.N(5) {
		case 0:
			b = [4]byte{'i', 's', 'o', 'm'}
			g.Raw(b[:])
		case 1:
			b = [4]byte{'m', 'p', '4', byte('0' + g.N(10))}
			g.Raw(b[:])
		default:
			b = g.b4()
		}
		if b == [4]byte{'q', 't', ' ', ' '} {
			panic("unlucky brand")
		}
		r = append(r, mp4.CompatibleBrandElem{CompatibleBrand: b})
	}
	return
}

var itemDef *Def

func underIlst(c mp4.Context) bool { return c.UnderIlst && !c.UnderIlstMeta }

var IlstMetaTypes = append(ts("----", "aART", "akID", "apID", "atID", "cmID", "cnID", "covr", "cpil", "cprt", "desc", "disk", "egid", "geID", "gnre",
	"pcst", "pgap", "plID", "purd", "purl", "rtng", "sfID", "soaa", "soal", "soar", "soco", "sonm", "sosn", "stik", "tmpo", "trkn", "tven", "tves", "tvnn", "tvsh", "tvsn"),
	ts("\xa9ART", "\xa9alb", "\xa9cmt", "\xa9com", "\xa9day", "\xa9gen", "\xa9grp", "\xa9nam", "\xa9too", "\xa9wrt")...)

func isIlstMeta(t mp4.BoxType) bool {
	for _, x := range IlstMetaTypes {
		if x == t {
			return true
		}
	}
	return false
}

var VisualTypes = ts("mp4v", "avc1", "encv", "hev1", "hvc1", "av01", "vp08", "vp09")
var AudioTypes = ts("mp4a", "enca", "ac-3", "ipcm", "fpcm", "Opus")

func genAVCPS(g *G, n int) (r []mp4.AVCParameterSet) {
	for i := 0; i < n; i++ {
		l := g.size()
		g.U(16, uint64(l))
		r = append(r, mp4.AVCParameterSet{Length: uint16(l), NALUnit: g.bytesN(l)})
	}
	return
}

// varint writes an expandable size; canonical means the four-byte form.
func (g *G) varint(v uint32, canon bool) {
	n := 4
	if !canon {
		n = 1
		for x := v >> 7; x > 0; x >>= 7 {
			n++
		}
	}
	for i := n - 1; i >= 0; i-- {
		b := byte(v>>(7*uint(i))) & 0x7f
		if i > 0 {
			b |= 0x80
		}
		g.Raw([]byte{b})
	}
}

func genDescriptor(g *G, canon bool) mp4.Descriptor {
	var d mp4.Descriptor
	switch g.Pick(2, 2, 2, 1, 1) {
	case 0:
		d.Tag = 0x05
	case 1:
		d.Tag = 0x03
	case 2:
		d.Tag = 0x04
	case 3:
		d.Tag = 0x06
	default:
		d.Tag = int8(g.val(8))
		if d.Tag == 3 || d.Tag == 4 {
			d.Tag = 7
		}
	}
	g.U(8, uint64(uint8(d.Tag)))
	switch d.Tag {
	case 3:
		d.Size = uint32(g.val(28))
		g.varint(d.Size, canon)
		es := &mp4.ESDescriptor{}
		es.ESID = g.u16()
		es.StreamDependenceFlag = g.flag()
		es.UrlFlag = g.flag()
		es.OcrStreamFlag = g.flag()
		es.StreamPriority = int8(g.sN(5))
		if es.StreamDependenceFlag {
			es.DependsOnESID = g.u16()
		}
		if es.UrlFlag {
			n := g.size() % 256
			es.URLLength = uint8(n)
			g.U(8, uint64(n))
			es.URLString = g.bytesN(n)
		}
		if es.OcrStreamFlag {
			es.OCRESID = g.u16()
		}
		d.ESDescriptor = es
	case 4:
		d.Size = uint32(g.val(28))
		g.varint(d.Size, canon)
		dc := &mp4.DecoderConfigDescriptor{}
		dc.ObjectTypeIndication = g.u8()
		dc.StreamType = int8(g.sN(6))
		dc.UpStream = g.flag()
		dc.Reserved = g.flag()
		dc.BufferSizeDB = uint32(g.bits(24))
		dc.MaxBitrate = g.u32()
		dc.AvgBitrate = g.u32()
		d.DecoderConfigDescriptor = dc
	default:
		n := g.size()
		d.Size = uint32(n)
		g.varint(d.Size, canon)
		d.Data = g.bytesN(n)
	}
	return d
}

func init() {
	// --- containers
	container("dinf", func() mp4.IBox { return &mp4.Dinf{} })
	container("edts", func() mp4.IBox { return &mp4.Edts{} })
	container("mdia", func() mp4.IBox { return &mp4.Mdia{} })
	container("mfra", func() mp4.IBox { return &mp4.Mfra{} })
	container("minf", func() mp4.IBox { return &mp4.Minf{} })
	container("moof", func() mp4.IBox { return &mp4.Moof{} })
	container("moov", func() mp4.IBox { return &mp4.Moov{} })
	container("mvex", func() mp4.IBox { return &mp4.Mvex{} })
	container("schi", func() mp4.IBox { return &mp4.Schi{} })
	container("sinf", func() mp4.IBox { return &mp4.Sinf{} })
	container("stbl", func() mp4.IBox { return &mp4.Stbl{} })
	container("traf", func() mp4.IBox { return &mp4.Traf{} })
	container("trak", func() mp4.IBox { return &mp4.Trak{} })
	container("udta", func() mp4.IBox { return &mp4.Udta{} })
	container("wave", func() mp4.IBox { return &mp4.Wave{} })
	container("ilst", func() mp4.IBox { return &mp4.Ilst{} })
	container("vttc", func() mp4.IBox { return &mp4.VTTCueBox{} })
	simple("vtte", func(g *G) mp4.IBox { return &mp4.VTTEmptyCueBox{} })

	// --- plain boxes
	simple("btrt", func(g *G) mp4.IBox {
		b := &mp4.Btrt{}
		b.BufferSizeDB = g.u32()
		b.MaxBitrate = g.u32()
		b.AvgBitrate = g.u32()
		return b
	})
	def(&Def{Name: "colr", Types: ts("colr"), Tail: true, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		b := &mp4.Colr{}
		switch g.Pick(3, 1, 1, 2) {
		case 0:
			b.ColourType = [4]byte{'n', 'c', 'l', 'x'}
			g.Raw(b.ColourType[:])
			b.ColourPrimaries = g.u16()
			b.TransferCharacteristics = g.u16()
			b.MatrixCoefficients = g.u16()
			b.FullRangeFlag = g.flag()
			b.Reserved = uint8(g.bits(7))
		case 1:
			b.ColourType = [4]byte{'r', 'I', 'C', 'C'}
			g.Raw(b.ColourType[:])
			b.Profile = g.bytes()
		case 2:
			b.ColourType = [4]byte{'p', 'r', 'o', 'f'}
			g.Raw(b.ColourType[:])
			b.Profile = g.bytes()
		default:
			b.ColourType = g.b4()
			switch string(b.ColourType[:]) {
			case "nclx", "rICC", "prof":
				panic("unlucky")
			}
			b.Unknown = g.bytes()
		}
		return b, true
	}})
	simple("fiel", func(g *G) mp4.IBox { b := &mp4.Fiel{}; b.FieldCount = g.u8(); b.FieldOrdering = g.u8(); return b })
	tail("free", func(g *G) mp4.IBox { return &mp4.Free{Data: g.bytes()} })
	tail("skip", func(g *G) mp4.IBox { return &mp4.Skip{Data: g.bytes()} })
	tail("mdat", func(g *G) mp4.IBox {
		if g.Big && g.P(1, 8) {
			return &mp4.Mdat{Data: g.bytesN(g.N(70000))}
		}
		return &mp4.Mdat{Data: g.bytes()}
	})
	simple("frma", func(g *G) mp4.IBox { return &mp4.Frma{DataFormat: g.b4()} })
	tail("ftyp", func(g *G) mp4.IBox {
		b := &mp4.Ftyp{}
		b.MajorBrand = g.b4()
		b.MinorVersion = g.u32()
		b.CompatibleBrands = brands(g, g.N(6))
		return b
	})
	tail("styp", func(g *G) mp4.IBox {
		b := &mp4.Styp{}
		b.MajorBrand = g.b4()
		b.MinorVersion = g.u32()
		b.CompatibleBrands = brands(g, g.N(6))
		return b
	})
	simple("hvcC", func(g *G) mp4.IBox {
		b := &mp4.HvcC{}
		b.ConfigurationVersion = g.u8()
		b.GeneralProfileSpace = uint8(g.bits(2))
		b.GeneralTierFlag = g.flag()
		b.GeneralProfileIdc = uint8(g.bits(5))
		m := g.bits(32)
		for i := range b.GeneralProfileCompatibility {
			b.GeneralProfileCompatibility[i] = m>>uint(31-i)&1 == 1
		}
		g.fix(b.GeneralConstraintIndicator[:])
		b.GeneralLevelIdc = g.u8()
		b.Reserved1 = uint8(g.bits(4))
		b.MinSpatialSegmentationIdc = uint16(g.bits(12))
		b.Reserved2 = uint8(g.bits(6))
		b.ParallelismType = uint8(g.bits(2))
		b.Reserved3 = uint8(g.bits(6))
		b.ChromaFormatIdc = uint8(g.bits(2))
		b.Reserved4 = uint8(g.bits(5))
		b.BitDepthLumaMinus8 = uint8(g.bits(3))
		b.Reserved5 = uint8(g.bits(5))
		b.BitDepthChromaMinus8 = uint8(g.bits(3))
		b.AvgFrameRate = g.u16()
		b.ConstantFrameRate = uint8(g.bits(2))
		b.NumTemporalLayers = uint8(g.bits(2)) // the library's layout (2+2+2+2 bits), pinned by its tests
		b.TemporalIdNested = uint8(g.bits(2))
		b.LengthSizeMinusOne = uint8(g.bits(2))
		n := g.N(4)
		b.NumOfNaluArrays = uint8(n)
		g.U(8, uint64(n))
		for i := 0; i < n; i++ {
			var a mp4.HEVCNaluArray
			a.Completeness = g.flag()
			a.Reserved = g.flag()
			a.NaluType = uint8(g.bits(6))
			k := g.N(4)
			a.NumNalus = uint16(k)
			g.U(16, uint64(k))
			for j := 0; j < k; j++ {
				l := g.size()
				g.U(16, uint64(l))
				a.Nalus = append(a.Nalus, mp4.HEVCNalu{Length: uint16(l), NALUnit: g.bytesN(l)})
			}
			b.NaluArrays = append(b.NaluArrays, a)
		}
		return b
	})
	def(&Def{Name: "pasp", Types: ts("pasp"), Any: true, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		b := &mp4.PixelAspectRatioBox{}
		b.Type = t
		b.HSpacing = g.u32()
		b.VSpacing = g.u32()
		return b, true
	}})
	tail("av1C", func(g *G) mp4.IBox {
		b := &mp4.Av1C{}
		b.Marker = uint8(g.bits(1))
		b.Version = uint8(g.bits(7))
		b.SeqProfile = uint8(g.bits(3))
		b.SeqLevelIdx0 = uint8(g.bits(5))
		b.SeqTier0 = uint8(g.bits(1))
		b.HighBitdepth = uint8(g.bits(1))
		b.TwelveBit = uint8(g.bits(1))
		b.Monochrome = uint8(g.bits(1))
		b.ChromaSubsamplingX = uint8(g.bits(1))
		b.ChromaSubsamplingY = uint8(g.bits(1))
		b.ChromaSamplePosition = uint8(g.bits(2))
		b.Reserved = uint8(g.bits(3))
		b.InitialPresentationDelayPresent = uint8(g.bits(1))
		b.InitialPresentationDelayMinusOne = uint8(g.bits(4))
		b.ConfigOBUs = g.bytes()
		return b
	})
	simple("dac3", func(g *G) mp4.IBox {
		b := &mp4.Dac3{}
		b.Fscod = uint8(g.bits(2))
		b.Bsid = uint8(g.bits(5))
		b.Bsmod = uint8(g.bits(3))
		b.Acmod = uint8(g.bits(3))
		b.LfeOn = uint8(g.bits(1))
		b.BitRateCode = uint8(g.bits(5))
		b.Reserved = uint8(g.bits(5))
		return b
	})
	simple("dOps", func(g *G) mp4.IBox {
		b := &mp4.DOps{}
		b.Version = g.u8()
		n := g.N(9)
		b.OutputChannelCount = uint8(n)
		g.U(8, uint64(n))
		b.PreSkip = g.u16()
		b.InputSampleRate = g.u32()
		b.OutputGain = g.i16()
		b.ChannelMappingFamily = g.u8()
		if b.ChannelMappingFamily != 0 {
			b.StreamCount = g.u8()
			b.CoupledCount = g.u8()
			b.ChannelMapping = g.bytesN(n)
		}
		return b
	})
	for _, x := range []struct {
		t  string
		mk func(s string) mp4.IBox
	}{
		{"vttC", func(s string) mp4.IBox { return &mp4.WebVTTConfigurationBox{Config: s} }},
		{"vlab", func(s string) mp4.IBox { return &mp4.WebVTTSourceLabelBox{SourceLabel: s} }},
		{"ctim", func(s string) mp4.IBox { return &mp4.CueTimeBox{CueCurrentTime: s} }},
		{"iden", func(s string) mp4.IBox { return &mp4.CueIDBox{CueId: s} }},
		{"sttg", func(s string) mp4.IBox { return &mp4.CueSettingsBox{Settings: s} }},
		{"payl", func(s string) mp4.IBox { return &mp4.CuePayloadBox{CueText: s} }},
		{"vtta", func(s string) mp4.IBox { return &mp4.VTTAdditionalTextBox{CueAdditionalText: s} }},
	} {
		x := x
		tail(x.t, func(g *G) mp4.IBox { s := g.str(); g.Raw([]byte(s)); return x.mk(s) })
	}
	simple("vsid", func(g *G) mp4.IBox { return &mp4.CueSourceIDBox{SourceId: g.u32()} })

	// --- sample entries
	def(&Def{Name: "visual", Types: VisualTypes, Any: true, Container: true, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		b := &mp4.VisualSampleEntry{SampleEntry: sampleEntry(g, t)}
		b.PreDefined = g.u16()
		b.Reserved = g.u16()
		for i := range b.PreDefined2 {
			b.PreDefined2[i] = g.u32()
		}
		b.Width = g.u16()
		b.Height = g.u16()
		b.Horizresolution = g.u32()
		b.Vertresolution = g.u32()
		b.Reserved2 = g.u32()
		b.FrameCount = g.u16()
		g.fix(b.Compressorname[:])
		b.Depth = g.u16()
		b.PreDefined3 = g.i16()
		return b, true
	}})
	def(&Def{Name: "audio", Types: AudioTypes, Any: true, Container: true, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		b := &mp4.AudioSampleEntry{}
		b.Type = t
		if c.IsQuickTimeCompatible && c.UnderWave {
			b.QuickTimeData = g.bytes()
			return b, true
		}
		b.SampleEntry = sampleEntry(g, t)
		switch g.N(4) {
		case 0:
			b.EntryVersion = 0
		case 1:
			b.EntryVersion = 1
		case 2:
			b.EntryVersion = 2
		default:
			b.EntryVersion = uint16(g.val(16))
		}
		g.U(16, uint64(b.EntryVersion))
		for i := range b.Reserved {
			b.Reserved[i] = g.u16()
		}
		b.ChannelCount = g.u16()
		b.SampleSize = g.u16()
		b.PreDefined = g.u16()
		b.Reserved2 = g.u16()
		b.SampleRate = g.u32()
		if c.IsQuickTimeCompatible {
			switch b.EntryVersion {
			case 1:
				b.QuickTimeData = g.bytesN(16)
			case 2:
				b.QuickTimeData = g.bytesN(36)
			}
		}
		return b, true
	}})
	def(&Def{Name: "stpp", Types: ts("stpp"), Any: true, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		b := &mp4.XMLSubtitleSampleEntry{SampleEntry: sampleEntry(g, t)}
		b.Namespace = g.cstr()
		b.SchemaLocation = g.cstr()
		b.AuxiliaryMIMETypes = g.cstr()
		return b, true
	}})
	def(&Def{Name: "sbtt", Types: ts("sbtt"), Any: true, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		b := &mp4.TextSubtitleSampleEntry{SampleEntry: sampleEntry(g, t)}
		b.ContentEncoding = g.cstr()
		b.MIMEFormat = g.cstr()
		return b, true
	}})
	def(&Def{Name: "wvtt", Types: ts("wvtt"), Any: true, Container: true, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		return &mp4.WVTTSampleEntry{SampleEntry: sampleEntry(g, t)}, true
	}})
	def(&Def{Name: "avcC", Types: ts("avcC"), Any: true, Tail: true, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		b := &mp4.AVCDecoderConfiguration{}
		b.Type = t
		b.ConfigurationVersion = g.u8()
		b.Profile = []uint8{66, 77, 88, 100, 110, 122, 144, 0}[g.N(8)]
		if b.Profile == 0 {
			b.Profile = uint8(g.val(8))
		}
		g.U(8, uint64(b.Profile))
		b.ProfileCompatibility = g.u8()
		b.Level = g.u8()
		b.Reserved = uint8(g.bits(6))
		b.LengthSizeMinusOne = uint8(g.bits(2))
		b.Reserved2 = uint8(g.bits(3))
		n := g.N(4)
		if g.P(1, 20) {
			n = 31
		}
		b.NumOfSequenceParameterSets = uint8(n)
		g.U(5, uint64(n))
		b.SequenceParameterSets = genAVCPS(g, n)
		n = g.N(4)
		b.NumOfPictureParameterSets = uint8(n)
		g.U(8, uint64(n))
		b.PictureParameterSets = genAVCPS(g, n)
		high := b.Profile == 100 || b.Profile == 110 || b.Profile == 122 || b.Profile == 144
		if high && g.P(1, 2) {
			b.HighProfileFieldsEnabled = true
			b.Reserved3 = uint8(g.bits(6))
			b.ChromaFormat = uint8(g.bits(2))
			b.Reserved4 = uint8(g.bits(5))
			b.BitDepthLumaMinus8 = uint8(g.bits(3))
			b.Reserved5 = uint8(g.bits(5))
			b.BitDepthChromaMinus8 = uint8(g.bits(3))
			n = g.N(3)
			b.NumOfSequenceParameterSetExt = uint8(n)
			g.U(8, uint64(n))
			b.SequenceParameterSetsExt = genAVCPS(g, n)
		}
		return b, true
	}})

	// --- full boxes
	fullbox("co64", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Co64{FullBox: g.full(v, g.flags())}
		n := g.size32()
		b.EntryCount = uint32(n)
		g.U(32, uint64(n))
		for i := 0; i < n; i++ {
			b.ChunkOffset = append(b.ChunkOffset, g.u64())
		}
		return b
	})
	fullbox("cslg", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Cslg{FullBox: g.full(v, g.flags())}
		if v == 0 {
			b.CompositionToDTSShiftV0 = g.i32()
			b.LeastDecodeToDisplayDeltaV0 = g.i32()
			b.GreatestDecodeToDisplayDeltaV0 = g.i32()
			b.CompositionStartTimeV0 = g.i32()
			b.CompositionEndTimeV0 = g.i32()
		} else {
			b.CompositionToDTSShiftV1 = g.i64()
			b.LeastDecodeToDisplayDeltaV1 = g.i64()
			b.GreatestDecodeToDisplayDeltaV1 = g.i64()
			b.CompositionStartTimeV1 = g.i64()
			b.CompositionEndTimeV1 = g.i64()
		}
		return b
	})
	fullbox("ctts", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Ctts{FullBox: g.full(v, g.flags())}
		n := g.size32()
		b.EntryCount = uint32(n)
		g.U(32, uint64(n))
		for i := 0; i < n; i++ {
			e := mp4.CttsEntry{SampleCount: g.u32()}
			if v == 0 {
				e.SampleOffsetV0 = g.u32()
			} else {
				e.SampleOffsetV1 = g.i32()
			}
			b.Entries = append(b.Entries, e)
		}
		return b
	})
	fullbox("dref", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Dref{FullBox: g.full(v, g.flags())}
		b.EntryCount = g.u32()
		return b
	}).Container = true
	fullbox("url ", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Url{FullBox: g.full(v, g.flags(1))}
		if b.Flags[2]&1 == 0 {
			b.Location = g.cstr()
		}
		return b
	})
	fullbox("urn ", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Urn{FullBox: g.full(v, g.flags(1))}
		if b.Flags[2]&1 == 0 {
			b.Name = g.cstr()
			b.Location = g.cstr()
		}
		return b
	})
	fullbox("elst", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Elst{FullBox: g.full(v, g.flags())}
		n := g.size32()
		b.EntryCount = uint32(n)
		g.U(32, uint64(n))
		for i := 0; i < n; i++ {
			var e mp4.ElstEntry
			if v == 0 {
				e.SegmentDurationV0 = g.u32()
				e.MediaTimeV0 = g.i32()
			} else {
				e.SegmentDurationV1 = g.u64()
				e.MediaTimeV1 = g.i64()
			}
			e.MediaRateInteger = g.i16()
			e.MediaRateFraction = g.i16()
			b.Entries = append(b.Entries, e)
		}
		return b
	})
	fullbox("emsg", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Emsg{FullBox: g.full(v, g.flags())}
		if v == 0 {
			b.SchemeIdUri = g.cstr()
			b.Value = g.cstr()
			b.Timescale = g.u32()
			b.PresentationTimeDelta = g.u32()
			b.EventDuration = g.u32()
			b.Id = g.u32()
		} else {
			b.Timescale = g.u32()
			b.PresentationTime = g.u64()
			b.EventDuration = g.u32()
			b.Id = g.u32()
			b.SchemeIdUri = g.cstr()
			b.Value = g.cstr()
		}
		b.MessageData = g.bytes()
		return b
	}).Tail = true
	def(&Def{Name: "hdlr", Types: ts("hdlr"), Tail: true, FullVersions: []uint8{0}, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		b := &mp4.Hdlr{FullBox: g.full(0, g.flags())}
		if g.P(1, 2) {
			b.PreDefined = uint32(g.val(32))
		}
		g.U(32, uint64(b.PreDefined))
		b.HandlerType = g.b4()
		for i := range b.Reserved {
			b.Reserved[i] = g.u32()
		}
		s := g.str()
		mode := g.N(5)
		if mode == 1 && g.P(1, 10) {
			s = strings.Repeat("p", 250+g.N(8))
		}
		if len(s) > 0 && g.P(1, 3) { // the first byte is nearly a length
			if c := len(s) + g.N(8) - 2; c > 0 && c < 256 {
				s = string([]byte{byte(c)}) + s[1:]
			}
		}
		// A C string whose first byte is the length of the rest is read as a Pascal string when pre_defined is set.
		looksP := func(total int) bool { return b.PreDefined != 0 && total >= 2 && len(s) > 0 && int(s[0]) == total-1 }
		if looksP(len(s) + 1) { // ambiguous once it is written as a C string
			c := byte('n')
			if s[0] == c {
				c = 'm'
			}
			s = string(c) + s[1:]
		}
		switch {
		case mode == 1 && b.PreDefined != 0 && len(s) >= 1 && len(s) <= 255: // Pascal string
			g.U(8, uint64(len(s)))
			g.Raw([]byte(s))
			b.Name = s
			return b, false
		case mode == 2 && !looksP(len(s)): // no terminator
			g.Raw([]byte(s))
			b.Name = s
			return b, false
		case mode == 3 && !looksP(len(s)+4): // bytes after the terminator
			g.Raw([]byte(s))
			g.Raw([]byte{0, 1, 2, 3})
			b.Name = s
			return b, false
		default:
			g.Raw([]byte(s))
			g.Raw([]byte{0})
			b.Name = s
			return b, true
		}
	}})
	fullbox("mdhd", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Mdhd{FullBox: g.full(v, g.flags())}
		if v == 0 {
			b.CreationTimeV0 = g.u32()
			b.ModificationTimeV0 = g.u32()
		} else {
			b.CreationTimeV1 = g.u64()
			b.ModificationTimeV1 = g.u64()
		}
		b.Timescale = g.u32()
		if v == 0 {
			b.DurationV0 = g.u32()
		} else {
			b.DurationV1 = g.u64()
		}
		b.Pad = g.flag()
		for i := range b.Language {
			b.Language[i] = byte(g.bits(5))
		}
		b.PreDefined = g.u16()
		return b
	})
	fullbox("mehd", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Mehd{FullBox: g.full(v, g.flags())}
		if v == 0 {
			b.FragmentDurationV0 = g.u32()
		} else {
			b.FragmentDurationV1 = g.u64()
		}
		return b
	})
	// meta: the full-box form (version and flags zero) or the QuickTime form without them
	def(&Def{Name: "meta", Types: ts("meta"), Container: true, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		return &mp4.Meta{FullBox: g.full(0, 0)}, true
	}})
	fullbox("mfhd", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Mfhd{FullBox: g.full(v, g.flags())}
		b.SequenceNumber = g.u32()
		return b
	})
	fullbox("mfro", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Mfro{FullBox: g.full(v, g.flags())}
		b.Size = g.u32()
		return b
	})
	fullbox("mvhd", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Mvhd{FullBox: g.full(v, g.flags())}
		if v == 0 {
			b.CreationTimeV0 = g.u32()
			b.ModificationTimeV0 = g.u32()
		} else {
			b.CreationTimeV1 = g.u64()
			b.ModificationTimeV1 = g.u64()
		}
		b.Timescale = g.u32()
		if v == 0 {
			b.DurationV0 = g.u32()
		} else {
			b.DurationV1 = g.u64()
		}
		b.Rate = g.i32()
		b.Volume = g.i16()
		b.Reserved = g.i16()
		for i := range b.Reserved2 {
			b.Reserved2[i] = g.u32()
		}
		for i := range b.Matrix {
			b.Matrix[i] = g.i32()
		}
		for i := range b.PreDefined {
			b.PreDefined[i] = g.i32()
		}
		b.NextTrackID = g.u32()
		return b
	})
	fullbox("saio", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Saio{FullBox: g.full(v, g.flags(1))}
		if b.Flags[2]&1 != 0 {
			b.AuxInfoType = g.b4()
			b.AuxInfoTypeParameter = g.u32()
		}
		n := g.size32()
		b.EntryCount = uint32(n)
		g.U(32, uint64(n))
		for i := 0; i < n; i++ {
			if v == 0 {
				b.OffsetV0 = append(b.OffsetV0, g.u32())
			} else {
				b.OffsetV1 = append(b.OffsetV1, g.u64())
			}
		}
		return b
	})
	fullbox("saiz", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Saiz{FullBox: g.full(v, g.flags(1))}
		if b.Flags[2]&1 != 0 {
			b.AuxInfoType = g.b4()
			b.AuxInfoTypeParameter = g.u32()
		}
		if g.P(1, 2) {
			g.U(8, 0)
		} else {
			b.DefaultSampleInfoSize = g.u8()
		}
		if b.DefaultSampleInfoSize == 0 {
			n := g.size32()
			b.SampleCount = uint32(n)
			g.U(32, uint64(n))
			b.SampleInfoSize = g.bytesN(n)
		} else {
			b.SampleCount = g.u32()
		}
		return b
	})
	fullbox("sbgp", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Sbgp{FullBox: g.full(v, g.flags())}
		b.GroupingType = g.u32()
		if v == 1 {
			b.GroupingTypeParameter = g.u32()
		}
		n := g.size32()
		b.EntryCount = uint32(n)
		g.U(32, uint64(n))
		for i := 0; i < n; i++ {
			b.Entries = append(b.Entries, mp4.SbgpEntry{SampleCount: g.u32(), GroupDescriptionIndex: g.u32()})
		}
		return b
	})
	def(&Def{Name: "schm", Types: ts("schm"), Tail: true, FullVersions: []uint8{0}, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		b := &mp4.Schm{FullBox: g.full(0, g.flags(1))}
		b.SchemeType = g.b4()
		b.SchemeVersion = g.u32()
		if b.Flags[2]&1 != 0 {
			b.SchemeUri = g.bytes()
		}
		return b, true
	}})
	fullbox("sdtp", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Sdtp{FullBox: g.full(v, g.flags())}
		for n := g.size32(); n > 0; n-- {
			x := uint8(g.bits(8))
			b.Samples = append(b.Samples, mp4.SdtpSampleElem{IsLeading: x >> 6, SampleDependsOn: x >> 4 & 3, SampleIsDependedOn: x >> 2 & 3, SampleHasRedundancy: x & 3})
		}
		return b
	}).Tail = true
	def(&Def{Name: "sgpd", Types: ts("sgpd"), Tail: true, FullVersions: []uint8{1, 2}, Gen: genSgpd})
	fullbox("sidx", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Sidx{FullBox: g.full(v, g.flags())}
		b.ReferenceID = g.u32()
		b.Timescale = g.u32()
		if v == 0 {
			b.EarliestPresentationTimeV0 = g.u32()
			b.FirstOffsetV0 = g.u32()
		} else {
			b.EarliestPresentationTimeV1 = g.u64()
			b.FirstOffsetV1 = g.u64()
		}
		b.Reserved = g.u16()
		n := g.size()
		b.ReferenceCount = uint16(n)
		g.U(16, uint64(n))
		for i := 0; i < n; i++ {
			var r mp4.SidxReference
			r.ReferenceType = g.flag()
			r.ReferencedSize = uint32(g.bits(31))
			r.SubsegmentDuration = g.u32()
			r.StartsWithSAP = g.flag()
			r.SAPType = uint32(g.bits(3))
			r.SAPDeltaTime = uint32(g.bits(28))
			b.References = append(b.References, r)
		}
		return b
	})
	fullbox("smhd", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Smhd{FullBox: g.full(v, g.flags())}
		b.Balance = g.i16()
		b.Reserved = g.u16()
		return b
	})
	fullbox("stco", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Stco{FullBox: g.full(v, g.flags())}
		n := g.size32()
		b.EntryCount = uint32(n)
		g.U(32, uint64(n))
		for i := 0; i < n; i++ {
			b.ChunkOffset = append(b.ChunkOffset, g.u32())
		}
		return b
	})
	fullbox("stsc", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Stsc{FullBox: g.full(v, g.flags())}
		n := g.size32()
		b.EntryCount = uint32(n)
		g.U(32, uint64(n))
		for i := 0; i < n; i++ {
			b.Entries = append(b.Entries, mp4.StscEntry{FirstChunk: g.u32(), SamplesPerChunk: g.u32(), SampleDescriptionIndex: g.u32()})
		}
		return b
	})
	fullbox("stsd", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Stsd{FullBox: g.full(v, g.flags())}
		b.EntryCount = g.u32()
		return b
	}).Container = true
	fullbox("stss", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Stss{FullBox: g.full(v, g.flags())}
		n := g.size32()
		b.EntryCount = uint32(n)
		g.U(32, uint64(n))
		for i := 0; i < n; i++ {
			b.SampleNumber = append(b.SampleNumber, g.u32())
		}
		return b
	})
	fullbox("stsz", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Stsz{FullBox: g.full(v, g.flags())}
		if g.P(1, 3) {
			b.SampleSize = uint32(g.val(32)) | 1
		}
		g.U(32, uint64(b.SampleSize))
		if b.SampleSize != 0 {
			b.SampleCount = g.u32()
		} else {
			n := g.size32()
			b.SampleCount = uint32(n)
			g.U(32, uint64(n))
			for i := 0; i < n; i++ {
				b.EntrySize = append(b.EntrySize, g.u32())
			}
		}
		return b
	})
	fullbox("stts", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Stts{FullBox: g.full(v, g.flags())}
		n := g.size32()
		b.EntryCount = uint32(n)
		g.U(32, uint64(n))
		for i := 0; i < n; i++ {
			b.Entries = append(b.Entries, mp4.SttsEntry{SampleCount: g.u32(), SampleDelta: g.u32()})
		}
		return b
	})
	fullbox("tfdt", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Tfdt{FullBox: g.full(v, g.flags())}
		if v == 0 {
			b.BaseMediaDecodeTimeV0 = g.u32()
		} else {
			b.BaseMediaDecodeTimeV1 = g.u64()
		}
		return b
	})
	fullbox("tfhd", 1, func(g *G, v uint8) mp4.IBox {
		fl := g.flags(1, 2, 8, 0x10, 0x20, 0x10000, 0x20000)
		b := &mp4.Tfhd{FullBox: g.full(v, fl)}
		b.TrackID = g.u32()
		if fl&1 != 0 {
			b.BaseDataOffset = g.u64()
		}
		if fl&2 != 0 {
			b.SampleDescriptionIndex = g.u32()
		}
		if fl&8 != 0 {
			b.DefaultSampleDuration = g.u32()
		}
		if fl&0x10 != 0 {
			b.DefaultSampleSize = g.u32()
		}
		if fl&0x20 != 0 {
			b.DefaultSampleFlags = g.u32()
		}
		return b
	})
	fullbox("tfra", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Tfra{FullBox: g.full(v, g.flags())}
		b.TrackID = g.u32()
		b.Reserved = uint32(g.bits(26))
		b.LengthSizeOfTrafNum = byte(g.bits(2))
		b.LengthSizeOfTrunNum = byte(g.bits(2))
		b.LengthSizeOfSampleNum = byte(g.bits(2))
		n := g.size32()
		b.NumberOfEntry = uint32(n)
		g.U(32, uint64(n))
		for i := 0; i < n; i++ {
			var e mp4.TfraEntry
			if v == 0 {
				e.TimeV0 = g.u32()
				e.MoofOffsetV0 = g.u32()
			} else {
				e.TimeV1 = g.u64()
				e.MoofOffsetV1 = g.u64()
			}
			e.TrafNumber = uint32(g.bits(8 * (int(b.LengthSizeOfTrafNum) + 1)))
			e.TrunNumber = uint32(g.bits(8 * (int(b.LengthSizeOfTrunNum) + 1)))
			e.SampleNumber = uint32(g.bits(8 * (int(b.LengthSizeOfSampleNum) + 1)))
			b.Entries = append(b.Entries, e)
		}
		return b
	})
	fullbox("tkhd", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Tkhd{FullBox: g.full(v, g.flags(1, 2, 4))}
		if v == 0 {
			b.CreationTimeV0 = g.u32()
			b.ModificationTimeV0 = g.u32()
		} else {
			b.CreationTimeV1 = g.u64()
			b.ModificationTimeV1 = g.u64()
		}
		b.TrackID = g.u32()
		b.Reserved0 = g.u32()
		if v == 0 {
			b.DurationV0 = g.u32()
		} else {
			b.DurationV1 = g.u64()
		}
		for i := range b.Reserved1 {
			b.Reserved1[i] = g.u32()
		}
		b.Layer = g.i16()
		b.AlternateGroup = g.i16()
		b.Volume = g.i16()
		b.Reserved2 = g.u16()
		for i := range b.Matrix {
			b.Matrix[i] = g.i32()
		}
		b.Width = g.u32()
		b.Height = g.u32()
		return b
	})
	fullbox("trep", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Trep{FullBox: g.full(v, g.flags())}
		b.TrackID = g.u32()
		return b
	}).Container = true
	fullbox("trex", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Trex{FullBox: g.full(v, g.flags())}
		b.TrackID = g.u32()
		b.DefaultSampleDescriptionIndex = g.u32()
		b.DefaultSampleDuration = g.u32()
		b.DefaultSampleSize = g.u32()
		b.DefaultSampleFlags = g.u32()
		return b
	})
	fullbox("trun", 2, func(g *G, v uint8) mp4.IBox {
		fl := g.flags(1, 4, 0x100, 0x200, 0x400, 0x800)
		b := &mp4.Trun{FullBox: g.full(v, fl)}
		n := g.size32()
		b.SampleCount = uint32(n)
		g.U(32, uint64(n))
		if fl&1 != 0 {
			b.DataOffset = g.i32()
		}
		if fl&4 != 0 {
			b.FirstSampleFlags = g.u32()
		}
		for i := 0; i < n; i++ {
			var e mp4.TrunEntry
			if fl&0x100 != 0 {
				e.SampleDuration = g.u32()
			}
			if fl&0x200 != 0 {
				e.SampleSize = g.u32()
			}
			if fl&0x400 != 0 {
				e.SampleFlags = g.u32()
			}
			if fl&0x800 != 0 {
				if v == 0 {
					e.SampleCompositionTimeOffsetV0 = g.u32()
				} else {
					e.SampleCompositionTimeOffsetV1 = g.i32()
				}
			}
			b.Entries = append(b.Entries, e)
		}
		return b
	})
	fullbox("vmhd", 1, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Vmhd{FullBox: g.full(v, g.flags())}
		b.Graphicsmode = g.u16()
		for i := range b.Opcolor {
			b.Opcolor[i] = g.u16()
		}
		return b
	})
	def(&Def{Name: "esds", Types: ts("esds"), Tail: true, FullVersions: []uint8{0}, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		b := &mp4.Esds{FullBox: g.full(0, g.flags())}
		canon := !g.P(1, 3)
		for n := g.N(5); n > 0; n-- {
			b.Descriptors = append(b.Descriptors, genDescriptor(g, canon))
		}
		return b, canon || len(b.Descriptors) == 0
	}})
	fullbox("pcmC", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.PcmC{FullBox: g.full(v, g.flags())}
		b.FormatFlags = g.u8()
		b.PCMSampleSize = g.u8()
		return b
	})
	fullbox("pssh", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Pssh{FullBox: g.full(v, g.flags())}
		g.fix(b.SystemID[:])
		if v != 0 {
			n := g.size() % 60
			b.KIDCount = uint32(n)
			g.U(32, uint64(n))
			for i := 0; i < n; i++ {
				var k mp4.PsshKID
				g.fix(k.KID[:])
				b.KIDs = append(b.KIDs, k)
			}
		}
		n := g.size32()
		b.DataSize = int32(n)
		g.U(32, uint64(n))
		b.Data = g.bytesN(n)
		return b
	})
	fullbox("tenc", 2, func(g *G, v uint8) mp4.IBox {
		b := &mp4.Tenc{FullBox: g.full(v, g.flags())}
		b.Reserved = g.u8()
		b.DefaultCryptByteBlock = uint8(g.bits(4))
		b.DefaultSkipByteBlock = uint8(g.bits(4))
		b.DefaultIsProtected = uint8(g.N(3))
		g.U(8, uint64(b.DefaultIsProtected))
		b.DefaultPerSampleIVSize = []uint8{0, 8, 16}[g.N(3)]
		g.U(8, uint64(b.DefaultPerSampleIVSize))
		g.fix(b.DefaultKID[:])
		if b.DefaultIsProtected == 1 && b.DefaultPerSampleIVSize == 0 {
			n := []int{8, 16, 0, 1, 255}[g.N(5)]
			b.DefaultConstantIVSize = uint8(n)
			g.U(8, uint64(n))
			b.DefaultConstantIV = g.bytesN(n)
		}
		return b
	})
	def(&Def{Name: "vpcC", Types: ts("vpcC"), Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		b := &mp4.VpcC{FullBox: g.full(uint8(g.N(3)), g.flags())}
		b.Profile = g.u8()
		b.Level = g.u8()
		b.BitDepth = uint8(g.bits(4))
		b.ChromaSubsampling = uint8(g.bits(3))
		b.VideoFullRangeFlag = uint8(g.bits(1))
		b.ColourPrimaries = g.u8()
		b.TransferCharacteristics = g.u8()
		b.MatrixCoefficients = g.u8()
		n := g.size()
		b.CodecInitializationDataSize = uint16(n)
		g.U(16, uint64(n))
		b.CodecInitializationData = g.bytesN(n)
		return b, true
	}})

	// --- metadata
	def(&Def{Name: "data", Types: ts("data"), Tail: true, Ctx: func(c mp4.Context) bool { return c.UnderIlstMeta }, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		return genData(g), true
	}})
	def(&Def{Name: "3gpp-string", Types: ts("titl", "dscp", "cprt", "perf", "auth", "gnre"), Any: true, Tail: true, FullVersions: []uint8{0},
		Ctx: func(c mp4.Context) bool { return c.UnderUdta }, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
			b := &mp4.Udta3GppString{FullBox: g.full(0, g.flags())}
			b.Type = t
			b.Pad = g.flag()
			for i := range b.Language {
				b.Language[i] = byte(g.bits(5))
			}
			b.Data = g.bytes()
			return b, true
		}})
	def(&Def{Name: "ilst-item", Types: IlstMetaTypes, Any: true, Container: true, Ctx: underIlst, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		b := &mp4.IlstMetaContainer{}
		b.Type = t
		return b, true
	}})
	def(&Def{Name: "freeform-string", Types: ts("mean", "name"), Any: true, Tail: true, Ctx: func(c mp4.Context) bool { return c.UnderIlstFreeMeta }, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		b := &mp4.StringData{}
		b.Type = t
		b.Data = g.bytes()
		return b, true
	}})
	def(&Def{Name: "keys", Types: ts("keys"), Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		b := &mp4.Keys{FullBox: g.full(uint8(g.N(2)), g.flags())}
		n := g.N(8)
		many := g.P(1, 30)
		if many {
			n = 100 + g.N(500)
			if g.P(1, 60) {
				n = 32700 + g.N(40000)
			}
		}
		b.EntryCount = int32(n)
		g.U(32, uint64(n))
		for i := 0; i < n; i++ {
			var k mp4.Key
			l := 0
			if !many || i%50 == 0 {
				l = g.size()
			}
			k.KeySize = int32(l + 8)
			g.U(32, uint64(l+8))
			k.KeyNamespace = g.bytesN(4)
			k.KeyValue = g.bytesN(l)
			b.Entries = append(b.Entries, k)
		}
		return b, true
	}})
	itemDef = &Def{Name: "item", Any: true, Tail: true, Gen: func(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
		b := &mp4.Item{}
		b.Type = t
		b.Version = g.u8()
		g.fix(b.Flags[:])
		b.ItemName = g.bytesN(4)
		b.Data = *genData(g)
		return b, true
	}}
	Defs = append(Defs, itemDef)
}

func genData(g *G) *mp4.Data {
	b := &mp4.Data{}
	switch g.N(3) {
	case 0:
		b.DataType = []uint32{0, 1, 2, 3, 14, 21, 22, 23}[g.N(8)]
		g.U(32, uint64(b.DataType))
	default:
		b.DataType = g.u32()
	}
	b.DataLang = g.u32()
	b.Data = g.bytes()
	return b
}

func genSgpd(g *G, c mp4.Context, t mp4.BoxType) (mp4.IBox, bool) {
	v := uint8(1 + g.N(2))
	b := &mp4.Sgpd{FullBox: g.full(v, g.flags())}
	kind := g.N(5)
	gt := []string{"roll", "alst", "rap ", "tele", ""}[kind]
	if gt == "roll" && g.P(1, 2) {
		gt = "prol"
	}
	if gt != "" {
		copy(b.GroupingType[:], gt)
		g.Raw(b.GroupingType[:])
	} else {
		b.GroupingType = g.b4()
		switch string(b.GroupingType[:]) {
		case "roll", "prol", "alst", "rap ", "tele":
			panic("unlucky")
		}
	}
	n := g.N(5)
	// With a fixed entry length the entries have no length field of their own.
	fixed := true
	rollCount, opts := 0, 0
	if v == 1 {
		switch kind {
		case 0:
			b.DefaultLength = 2
		case 1:
			rollCount, opts = g.N(4), g.N(3)
			b.DefaultLength = uint32(4 + 4*rollCount + 4*opts)
		case 2, 3:
			b.DefaultLength = 1
		default:
			b.DefaultLength = uint32(g.val(32))
		}
		if kind != 4 && g.P(1, 2) {
			b.DefaultLength = 0
			fixed = false
		}
		g.U(32, uint64(b.DefaultLength))
	} else {
		b.DefaultSampleDescriptionIndex = g.u32()
		if kind == 1 { // version 2 has no entry length to decode startup entries with
			n = 0
		}
	}
	b.EntryCount = uint32(n)
	g.U(32, uint64(n))
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			if fixed {
				b.RollDistances = append(b.RollDistances, g.i16())
			} else {
				g.U(32, 2)
				b.RollDistancesL = append(b.RollDistancesL, mp4.RollDistanceWithLength{DescriptionLength: 2, RollDistance: g.i16()})
			}
		case 1:
			var l uint32
			if !fixed {
				rollCount, opts = g.N(4), g.N(3)
				l = uint32(4 + 4*rollCount + 4*opts)
				g.U(32, uint64(l))
			}
			var e mp4.AlternativeStartupEntry
			e.RollCount = uint16(rollCount)
			g.U(16, uint64(rollCount))
			e.FirstOutputSample = g.u16()
			for k := 0; k < rollCount; k++ {
				e.SampleOffset = append(e.SampleOffset, g.u32())
			}
			for k := 0; k < opts; k++ {
				e.Opts = append(e.Opts, mp4.AlternativeStartupEntryOpt{NumOutputSamples: g.u16(), NumTotalSamples: g.u16()})
			}
			if fixed {
				b.AlternativeStartupEntries = append(b.AlternativeStartupEntries, e)
			} else {
				b.AlternativeStartupEntriesL = append(b.AlternativeStartupEntriesL, mp4.AlternativeStartupEntryL{DescriptionLength: l, AlternativeStartupEntry: e})
			}
		case 2:
			if !fixed {
				g.U(32, 1)
			}
			e := mp4.VisualRandomAccessEntry{NumLeadingSamplesKnown: g.flag(), NumLeadingSamples: uint8(g.bits(7))}
			if fixed {
				b.VisualRandomAccessEntries = append(b.VisualRandomAccessEntries, e)
			} else {
				b.VisualRandomAccessEntriesL = append(b.VisualRandomAccessEntriesL, mp4.VisualRandomAccessEntryL{DescriptionLength: 1, VisualRandomAccessEntry: e})
			}
		case 3:
			if !fixed {
				g.U(32, 1)
			}
			e := mp4.TemporalLevelEntry{LevelIndependentlyDecodable: g.flag(), Reserved: uint8(g.bits(7))}
			if fixed {
				b.TemporalLevelEntries = append(b.TemporalLevelEntries, e)
			} else {
				b.TemporalLevelEntriesL = append(b.TemporalLevelEntriesL, mp4.TemporalLevelEntryL{DescriptionLength: 1, TemporalLevelEntry: e})
			}
		}
	}
	if kind == 4 {
		b.Unsupported = g.bytes()
	}
	return b, true
}
