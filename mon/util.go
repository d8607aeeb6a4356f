package main

import (
	"bytes"
	"compress/gzip"
	"io"
	"net"
	"time"
)

func gunzipAll(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func netDial(addr string) (net.Conn, error) { return net.DialTimeout("tcp", addr, 10*time.Second) }

func readAll(r io.Reader) ([]byte, error) { return io.ReadAll(r) }
