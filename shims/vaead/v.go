// Package vaead is an ideal authenticated cipher: Open succeeds exactly on the
// (key, nonce, additional data, ciphertext) tuples Seal produced.
package vaead

import (
	"crypto/cipher"
	"errors"

	"github.com/unit-io/unitdb/zz_verif/vrt"
)

const (
	KeySize   = 32
	NonceSize = 12
	Overhead  = 16
)

type rec struct{ key, nonce, ct, ad []byte }

var table []rec

type aead struct{ key []byte }

func New(key []byte) (cipher.AEAD, error) {
	if len(key) != KeySize {
		return nil, errors.New("chacha20poly1305: bad key length")
	}
	return &aead{append([]byte(nil), key...)}, nil
}

func (a *aead) NonceSize() int { return NonceSize }
func (a *aead) Overhead() int  { return Overhead }

func pad(nonce []byte, i int) byte { return nonce[i%NonceSize] ^ byte(i*29+0x5a) }

func (a *aead) Seal(dst, nonce, pt, ad []byte) []byte {
	if len(nonce) != NonceSize {
		panic("chacha20poly1305: bad nonce length passed to Seal")
	}
	ct := make([]byte, len(pt)+Overhead)
	for i := range pt {
		ct[i] = pt[i] ^ a.key[i%KeySize] ^ pad(nonce, i)
	}
	n := len(table) + 1
	for i := 0; i < Overhead; i++ {
		ct[len(pt)+i] = byte(n*7+i) ^ 0xa5
	}
	table = append(table, rec{a.key, append([]byte(nil), nonce...), ct, append([]byte(nil), ad...)})
	return append(dst, ct...)
}

func (a *aead) Open(dst, nonce, ct, ad []byte) ([]byte, error) {
	if len(nonce) != NonceSize {
		panic("chacha20poly1305: bad nonce length passed to Open")
	}
	ok := false
	for _, r := range table {
		if len(r.ct) == len(ct) && len(r.ad) == len(ad) {
			ok = vrt.Or(ok, vrt.And(vrt.And(vrt.EqBytes(r.key, a.key), vrt.EqBytes(r.nonce, nonce)), vrt.And(vrt.EqBytes(r.ct, ct), vrt.EqBytes(r.ad, ad))))
		}
	}
	if !ok {
		return nil, errors.New("chacha20poly1305: message authentication failed")
	}
	pt := make([]byte, len(ct)-Overhead)
	for i := range pt {
		pt[i] = ct[i] ^ a.key[i%KeySize] ^ pad(nonce, i)
	}
	return append(dst, pt...), nil
}
