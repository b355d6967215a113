package transport

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net/http"
	"testing"
	"testing/iotest"

	hbci "github.com/mitch000001/go-hbci/transport"
)

type vRound func(*http.Request) (*http.Response, error)

func (f vRound) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func TestVerifC21(t *testing.T) {
	v := vStart(t)
	v.Rule("bodies of random bytes up to 300000 bytes (3000000 in the thorough tier), responses of any status with encoded, corrupted or plain bodies, failing requests, through both HTTPS transports")
	rnd := func() []byte {
		b := make([]byte, []int{0, 1, 2, 3, 100, 1023, 1024, 1025, 3000, 70001, v.N(300000, 3000000)}[v.R.Intn(11)])
		v.R.Read(b)
		return b
	}
	boom := errors.New("boom")
	for i := 0; i < v.N(400, 5000); i++ {
		b, resp := rnd(), rnd()
		status := []int{200, 200, 200, 201, 404, 500}[v.R.Intn(6)]
		v.Case(fmt.Sprintf("%d %q", i, b), func() error {
			for _, coded := range []bool{true, false} {
				wire := resp
				if coded && status == 200 {
					wire = []byte(base64.StdEncoding.EncodeToString(resp))
				}
				var got []byte
				n := 0
				c := &http.Client{Transport: vRound(func(r *http.Request) (*http.Response, error) {
					n++
					got, _ = io.ReadAll(r.Body)
					if r.URL.String() != "https://x/y" || r.Method != "POST" {
						return nil, fmt.Errorf("%s %s", r.Method, r.URL)
					}
					return &http.Response{StatusCode: status, Body: io.NopCloser(bytes.NewReader(wire)), Request: r}, nil
				})}
				bad := &http.Client{Transport: vRound(func(r *http.Request) (*http.Response, error) { return nil, boom })}
				mk := func(c *http.Client) hbci.Transport {
					if coded {
						return &HTTPSBase64Transport{httpClient: c}
					}
					return NewNonDefault(c)
				}
				req := func(r io.Reader) *hbci.Request { return &hbci.Request{URL: "https://x/y", Body: io.NopCloser(r)} }
				q := req(iotest.HalfReader(bytes.NewReader(b)))
				res, err := mk(c).Do(q)
				if err != nil {
					return err
				}
				want := b
				if coded {
					want = []byte(base64.StdEncoding.EncodeToString(b))
				}
				if n != 1 || !bytes.Equal(got, want) {
					return fmt.Errorf("sent %d times %q, want %q", n, got, want)
				}
				if r, err := io.ReadAll(res.Body); err != nil || !bytes.Equal(r, resp) || res.Request != q {
					return fmt.Errorf("response %q, %v, want %q", r, err, resp)
				}
				if _, err := mk(bad).Do(req(bytes.NewReader(b))); !errors.Is(err, boom) {
					return fmt.Errorf("error became %v", err)
				}
				n = 0
				_, err = mk(c).Do(req(io.MultiReader(bytes.NewReader(b), iotest.ErrReader(boom))))
				if coded && (err == nil || n != 0) {
					return fmt.Errorf("a body that cannot be read was sent")
				}
			}
			return nil
		})
	}
	v.End(t)
}
