package core

import (
	"bytes"
	"embed"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"strconv"
	"strings"

	"github.com/jung-kurt/gofpdf/v2"
)

//go:embed testdata/*
var testdata embed.FS

func asset(name string) []byte {
	b, err := testdata.ReadFile("testdata/" + name)
	if err != nil {
		panic(err)
	}
	return b
}

var imgCache = map[string][]byte{}

// imageBytes makes a deterministic image from a name such as "png-rgb-40x20-7".
func imageBytes(name string) []byte {
	if b, ok := imgCache[name]; ok {
		return b
	}
	f := strings.Split(name, "-")
	wh := strings.Split(f[2], "x")
	w, _ := strconv.Atoi(wh[0])
	h, _ := strconv.Atoi(wh[1])
	seed, _ := strconv.Atoi(f[3])
	r := NewRng(uint64(seed)*77 + 5)
	base := color.NRGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), 255}
	var img image.Image
	px := func(x, y int) color.NRGBA {
		c := base
		if (x/3+y/2)%2 == 0 {
			c.R, c.G = c.G, c.B
		}
		if r.Intn(6) == 0 {
			c.B ^= uint8(x * 7)
		}
		return c
	}
	switch f[1] {
	case "gray":
		m := image.NewGray(image.Rect(0, 0, w, h))
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				m.Set(x, y, px(x, y))
			}
		}
		img = m
	case "pal":
		p := color.Palette{color.Black, color.White, base, color.NRGBA{255, 0, 0, 255}}
		m := image.NewPaletted(image.Rect(0, 0, w, h), p)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				m.SetColorIndex(x, y, uint8(r.Intn(4)))
			}
		}
		img = m
	default:
		m := image.NewNRGBA(image.Rect(0, 0, w, h))
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				c := px(x, y)
				if f[1] == "rgba" {
					c.A = uint8(x * 255 / w)
				}
				m.SetNRGBA(x, y, c)
			}
		}
		img = m
	}
	var b bytes.Buffer
	var err error
	switch f[0] {
	case "png":
		err = png.Encode(&b, img)
	case "jpg":
		err = jpeg.Encode(&b, img, &jpeg.Options{Quality: 80})
	case "gif":
		if f[1] == "frame" {
			// several frames, the first of which covers only a part of the image
			p := color.Palette{color.Black, color.White, base}
			g := &gif.GIF{Config: image.Config{Width: w, Height: h, ColorModel: p}}
			for i := 0; i < 3; i++ {
				g.Image = append(g.Image, image.NewPaletted(image.Rect(w/4, h/4, w-i-1, h-2), p))
				g.Delay = append(g.Delay, 10)
			}
			err = gif.EncodeAll(&b, g)
			break
		}
		err = gif.Encode(&b, img, nil)
	}
	if err != nil {
		panic(err)
	}
	out := b.Bytes()
	if len(f) > 4 {
		// meta data before everything else
		n, _ := strconv.Atoi(f[4][1:])
		out = append([]byte(nil), out[:2]...)
		for n > 0 {
			k := minInt(n, 65000)
			out = append(out, 0xff, 0xe1, byte((k+2)>>8), byte(k+2))
			out = append(out, bytes.Repeat([]byte("Exif\x00\x00data"), k/10+1)[:k]...)
			n -= k
		}
		out = append(out, b.Bytes()[2:]...)
	}
	imgCache[name] = out
	return out
}

var imgNames = []string{
	"png-rgb-40x20-1", "png-gray-16x16-2", "png-pal-30x30-3", "png-rgba-24x36-4", "jpg-rgb-48x32-5", "gif-pal-20x28-6",
	"png-rgb-9x50-7", "jpg-gray-20x20-8", "png-rgb-120x90-9", "jpg-rgb-200x120-10",
	"jpg-rgb-64x40-11-m6000", "jpg-gray-33x21-12-m700", "jpg-rgb-25x50-13-m90000",
}

// cmdImgNames are the images of the image command, among them such as the PDF
// library draws differently from other programs.
var cmdImgNames = append(append([]string(nil), imgNames...), "gif-frame-31x22-14", "gif-frame-90x70-15", "png-rgb-1x1-16", "jpg-rgb-1x300-17", "gif-pal-1x1-18", "png-gray-1000x1-19")

func imgFile(n string) string { return n + "." + n[:3] }

var imgIDs = map[string]string{}

// imageID is the identity of an image in a PDF, taken from the PDF library alone.
func imageID(name string) string {
	if id, ok := imgIDs[name]; ok {
		return id
	}
	p := gofpdf.New("P", "mm", "A4", "")
	p.AddPage()
	p.RegisterImageOptionsReader("x", gofpdf.ImageOptions{ImageType: name[:3]}, bytes.NewReader(imageBytes(name)))
	p.ImageOptions("x", 10, 10, 10, 10, false, gofpdf.ImageOptions{ImageType: name[:3]}, 0, "")
	var b bytes.Buffer
	if err := p.Output(&b); err != nil {
		panic(err)
	}
	pdf, err := ParsePDF(b.Bytes())
	if err != nil {
		panic(err)
	}
	id := ""
	for _, m := range pdf.Pages[0].Marks {
		if m.Kind == 'i' {
			id = m.Img
		}
	}
	imgIDs[name] = id
	return id
}

func imgPx(name string) (int, int) {
	wh := strings.Split(strings.Split(name, "-")[2], "x")
	w, _ := strconv.Atoi(wh[0])
	h, _ := strconv.Atoi(wh[1])
	return w, h
}
