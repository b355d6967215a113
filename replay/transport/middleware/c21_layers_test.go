package transport

import (
	"bytes"
	"encoding/base64"
	stderrors "errors"
	"fmt"
	"io"
	"log"
	"strings"
	"testing"
	"testing/iotest"

	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"

	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/transport"
)

type vSeen struct {
	n    int
	url  string
	body []byte
	err  error
}

func vTransport(s *vSeen, res *transport.Response, err error) transport.Transport {
	return transport.Func(func(r *transport.Request) (*transport.Response, error) {
		s.n++
		s.url = r.URL
		s.body, s.err = io.ReadAll(r.Body)
		return res, err
	})
}

type vFailing struct{}

func (vFailing) Write(p []byte) (int, error) { return 0, stderrors.New("disk full") }

func TestVerifC21(t *testing.T) {
	v := vStart(t)
	v.Rule("bodies of random bytes and texts up to 600000 bytes (5000000 in the thorough tier) read in whole, byte by byte, in halves or failing in the middle, sent through every layer; responses that are encodings, corrupted or truncated encodings, messages of every kind; transports that fail")
	boom := stderrors.New("boom")
	readers := func(b []byte) []io.Reader {
		return []io.Reader{bytes.NewReader(b), iotest.OneByteReader(bytes.NewReader(b)), iotest.HalfReader(bytes.NewReader(b)), iotest.DataErrReader(bytes.NewReader(b)), bytes.NewBuffer(append([]byte(nil), b...))}
	}
	broken := func(b []byte) io.Reader {
		return io.MultiReader(bytes.NewReader(b), iotest.ErrReader(boom))
	}
	body := func() []byte {
		n := []int{0, 1, 2, 3, 4, 5, 57, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 6000}[v.R.Intn(16)]
		if v.R.Intn(20) == 0 {
			n = []int{40000, 70001, 140003, 300000, v.N(600000, 5000000)}[v.R.Intn(5)]
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(v.R.Intn(256))
		}
		return b
	}
	msgs := []string{"HNHBK:1:3+000000000100+300+0+1'HNHBS:2:1+1'", "HNHBK:1:3+000000000100+300+0+1'HNVSK:998:3+PIN:1+998+1+1::0+1+2:2:13:@8@00000000:5:1+280:1:a:V:0:0+0'HNVSD:999:1+@12@HIRMG:2:2+x''HNHBS:3:1+1'", "HNHBK:1:3'HNVSK:998:3'", "HNHBK:1:3'HNVSK:998:3'HNVSD:999:1'", "HNVSK:998:3'HNVSD:999:1+@3@abc'", "'", "''", "+", "@9@", "HNHBK'", "HNHBK:1:3+1+300+0+1'HIRMG:2:2+0010::ok'HNHBS:3:1+1'", "HNHBK:1:3+1+999+0+1'", "HNHBK:1:3+1++0+1'HIRMG:2:2'", "HNHBK:1:3+1+300+0+1'HIRMG:2:2'HIRMS:3:2:4'"}
	pieces := []string{"HNHBK:1:3+1+300+0+1'", "HNVSK:998:3'", "HNVSD:999:1+@3@abc'", "HIRMG:2:2", "HIRMS:3:2:4", "+0010::ok", "+", ":", "'", "@2@", "?", "1", "HNHBS:3:1+1'"}
	check := func(s *vSeen, want []byte) error {
		if s.n != 1 || s.url != "url" || s.err != nil {
			return fmt.Errorf("transport called %d times with %q, body error %v", s.n, s.url, s.err)
		}
		if !bytes.Equal(s.body, want) {
			return fmt.Errorf("transport received %q, want %q", s.body, want)
		}
		return nil
	}
	one := func(i int) {
		b := body()
		if v.R.Intn(3) == 0 {
			b = []byte(msgs[v.R.Intn(len(msgs))])
		}
		if v.R.Intn(4) == 0 {
			b = []byte(v.Rand(pieces, 8))
		}
		v.Case(fmt.Sprintf("%d %q", i, b), func() error {
			for _, enc := range []*base64.Encoding{base64.StdEncoding, base64.URLEncoding, base64.RawStdEncoding} {
				for k, r := range readers(b) {
					resp := body()
					wire := []byte(enc.EncodeToString(resp))
					var dec []byte
					var derr error
					switch v.R.Intn(4) {
					case 0:
						wire = wire[:len(wire)/2]
					case 1:
						if len(wire) > 0 {
							wire[v.R.Intn(len(wire))] = '!'
						}
					}
					dec, derr = enc.DecodeString(string(wire))
					var s vSeen
					res, err := Base64Encoding(enc)(vTransport(&s, &transport.Response{Body: io.NopCloser(readers(wire)[v.R.Intn(5)])}, nil)).Do(&transport.Request{URL: "url", Body: io.NopCloser(r)})
					if err != nil {
						return fmt.Errorf("base64 reader %d: %v", k, err)
					}
					if err := check(&s, []byte(enc.EncodeToString(b))); err != nil {
						return err
					}
					got, rerr := io.ReadAll(res.Body)
					if (rerr == nil) != (derr == nil) || derr == nil && !bytes.Equal(got, dec) {
						return fmt.Errorf("base64 response %q read as %q, %v", wire, got, rerr)
					}
				}
				var s vSeen
				if _, err := Base64Encoding(enc)(vTransport(&s, nil, boom)).Do(&transport.Request{URL: "url", Body: io.NopCloser(bytes.NewReader(b))}); err != boom || s.n != 1 {
					return fmt.Errorf("base64: transport error became %v", err)
				}
				s = vSeen{}
				if _, err := Base64Encoding(enc)(vTransport(&s, &transport.Response{Body: io.NopCloser(bytes.NewReader(nil))}, nil)).Do(&transport.Request{URL: "url", Body: io.NopCloser(broken(b))}); err == nil {
					return fmt.Errorf("base64: a body that cannot be read was sent")
				}
				if res, err := Base64Encoding(enc)(vTransport(&s, &transport.Response{Body: io.NopCloser(broken([]byte("QUJD")))}, nil)).Do(&transport.Request{URL: "url", Body: io.NopCloser(bytes.NewReader(b))}); err == nil {
					if _, err := io.ReadAll(res.Body); err == nil {
						return fmt.Errorf("base64: the error of the response body got lost")
					}
				}
			}
			// character sets: text whose characters exist there
			rs := make([]rune, len(b))
			for j, c := range b {
				rs[j] = rune(c)
			}
			text := string(rs)
			for k, r := range readers([]byte(text)) {
				resp := body()
				var s vSeen
				res, err := UTF8Encoding(charmap.ISO8859_1)(vTransport(&s, &transport.Response{Body: io.NopCloser(readers(resp)[v.R.Intn(5)])}, nil)).Do(&transport.Request{URL: "url", Body: io.NopCloser(r)})
				if err != nil {
					return fmt.Errorf("charset reader %d: %v", k, err)
				}
				if err := check(&s, b); err != nil {
					return err
				}
				got, rerr := io.ReadAll(res.Body)
				gr := []rune(string(got))
				if rerr != nil || len(gr) != len(resp) {
					return fmt.Errorf("charset response %q read as %q, %v", resp, got, rerr)
				}
				for j := range gr {
					if gr[j] != rune(resp[j]) {
						return fmt.Errorf("charset response %q read as %q", resp, got)
					}
				}
			}
			for _, e := range []encoding.Encoding{charmap.ISO8859_1, charmap.Windows1252, encoding.Replacement} {
				for _, bad := range []string{text + "\xc3", "\u20ac\u4e16" + text, text + "\xe2\x82", "\xff" + text} {
					want, werr := e.NewEncoder().Bytes([]byte(bad))
					var s vSeen
					_, err := UTF8Encoding(e)(vTransport(&s, &transport.Response{Body: io.NopCloser(bytes.NewReader(nil))}, nil)).Do(&transport.Request{URL: "url", Body: io.NopCloser(strings.NewReader(bad))})
					if (err == nil) != (werr == nil) || err == nil && !bytes.Equal(s.body, want) || err != nil && s.n != 0 {
						return fmt.Errorf("charset: %q sent as %q, %v", bad, s.body, err)
					}
				}
			}
			var s vSeen
			if _, err := UTF8Encoding(charmap.ISO8859_1)(vTransport(&s, nil, boom)).Do(&transport.Request{URL: "url", Body: io.NopCloser(strings.NewReader(text))}); err != boom {
				return fmt.Errorf("charset: transport error became %v", err)
			}
			s = vSeen{}
			if _, err := UTF8Encoding(charmap.ISO8859_1)(vTransport(&s, &transport.Response{Body: io.NopCloser(bytes.NewReader(nil))}, nil)).Do(&transport.Request{URL: "url", Body: io.NopCloser(broken([]byte(text)))}); err == nil {
				return fmt.Errorf("charset: a body that cannot be read was sent")
			}
			// logging
			crypto := message.NewPinTanCryptoProvider(domain.NewPinKey("12345", domain.NewPinTanKeyName(domain.BankID{CountryCode: 280, ID: "1"}, "u", "V")), "id")
			for _, w := range []io.Writer{io.Discard, vFailing{}, &bytes.Buffer{}} {
				lg := log.New(w, "", 0)
				for k, r := range readers(b) {
					resp := body()
					if v.R.Intn(2) == 0 {
						resp = []byte(v.Rand(pieces, 8))
					}
					if v.R.Intn(4) == 0 {
						resp = []byte(msgs[v.R.Intn(len(msgs))])
					}
					var s vSeen
					res, err := Logging(lg, crypto)(vTransport(&s, &transport.Response{Body: io.NopCloser(readers(resp)[v.R.Intn(5)])}, nil)).Do(&transport.Request{URL: "url", Body: io.NopCloser(r)})
					if err != nil {
						return fmt.Errorf("logging reader %d: %v", k, err)
					}
					if err := check(&s, b); err != nil {
						return err
					}
					if got, err := io.ReadAll(res.Body); err != nil || !bytes.Equal(got, resp) {
						return fmt.Errorf("logging: response %q forwarded as %q, %v", resp, got, err)
					}
				}
				var s vSeen
				if _, err := Logging(lg, crypto)(vTransport(&s, nil, boom)).Do(&transport.Request{URL: "url", Body: io.NopCloser(bytes.NewReader(b))}); err != boom || s.n != 1 {
					return fmt.Errorf("logging: transport error became %v", err)
				}
				s = vSeen{}
				if _, err := Logging(lg, crypto)(vTransport(&s, &transport.Response{Body: io.NopCloser(bytes.NewReader(nil))}, nil)).Do(&transport.Request{URL: "url", Body: io.NopCloser(broken(b))}); err == nil && s.err == nil {
					return fmt.Errorf("logging: the error of the request body got lost")
				}
				if res, err := Logging(lg, crypto)(vTransport(&s, &transport.Response{Body: io.NopCloser(broken(b))}, nil)).Do(&transport.Request{URL: "url", Body: io.NopCloser(bytes.NewReader(b))}); err == nil {
					if _, err := io.ReadAll(res.Body); err == nil {
						return fmt.Errorf("logging: the error of the response body got lost")
					}
				}
			}
			return nil
		})
	}
	for i := 0; i < v.N(150, 3000); i++ {
		one(i)
	}
	v.End(t)
}
