package vhttp

import "net/url"

type Header map[string][]string

func (h Header) Set(k, v string) { h[k] = []string{v} }
func (h Header) Get(k string) string {
	if v := h[k]; len(v) > 0 {
		return v[0]
	}
	return ""
}

type ResponseWriter interface {
	Header() Header
	Write([]byte) (int, error)
	WriteHeader(int)
}

type Request struct {
	URL    *url.URL
	Method string
	Header Header
}
