package transport

import (
	"encoding/base64"
	"log"

	"golang.org/x/text/encoding"

	"github.com/mitch000001/go-hbci/message"
	"github.com/mitch000001/go-hbci/transport"
)

// one request through a layer

func gocvBase64(enc *base64.Encoding, t transport.Transport, req *transport.Request) (*transport.Response, error) {
	return Base64Encoding(enc)(t).Do(req)
}

func gocvText(enc encoding.Encoding, t transport.Transport, req *transport.Request) (*transport.Response, error) {
	return UTF8Encoding(enc)(t).Do(req)
}

func gocvLogging(logger *log.Logger, crypto message.CryptoProvider, t transport.Transport, req *transport.Request) (*transport.Response, error) {
	return Logging(logger, crypto)(t).Do(req)
}
