package videoh

import (
	"image"

	"github.com/32bitkid/mpeg/video"
	"github.com/32bitkid/mpeg/zzverif/sym"
)

// display puts decoded pictures in display order.
func display(p []*refPicture) (out []*refPicture) {
	var held *refPicture
	for _, x := range p {
		if x.typ == 3 {
			out = append(out, x)
			continue
		}
		if held != nil {
			out = append(out, held)
		}
		held = x
	}
	if held != nil {
		out = append(out, held)
	}
	return
}

// agree decodes b with the library and with the reference decoder and compares
// every sample of every frame. It returns the reference's verdict.
func agree(b []byte) (why string, info *refInfo, frames []*image.YCbCr) {
	// the first run only makes the case distinctions, so that the decoder and
	// the second run both work under all of them
	_, why, _ = refDecode(b)
	d := decoder(b)
	if why != "" && why[0] == '?' {
		d.Next()
		return // forbidden by the standard, the outcome is not laid down
	}
	if why != "" {
		want, why, info := refDecode(b)
		// not a valid stream: the frames before the fault, then an error
		for i := 0; i <= len(want); i++ {
			_, err := d.Next()
			if err != nil {
				sym.Assert(err != video.EOS, "an invalid stream ends in an error")
				return why, info, nil
			}
		}
		sym.Assert(false, "an invalid stream is rejected: "+why)
		return why, info, nil
	}
	var got []*image.YCbCr
	for {
		f, err := d.Next()
		if err != nil || f == nil {
			sym.Assert(err == video.EOS, "a valid stream is decoded")
			break
		}
		got = append(got, f)
	}
	out, why, info := refDecode(b)
	want := display(out)
	sym.Assert(len(got) == len(want), "one frame for every picture")
	for i, x := range want {
		f := got[i]
		sym.Assert(f.Rect == x.Rect && f.YStride == x.YStride && f.CStride == x.CStride && f.SubsampleRatio == x.SubsampleRatio, "frame geometry")
		sym.Assert(same(f.Y, x.Y), "every luma sample is the standard's")
		sym.Assert(same(f.Cb, x.Cb), "every Cb sample is the standard's")
		sym.Assert(same(f.Cr, x.Cr), "every Cr sample is the standard's")
	}
	return "", info, got
}
