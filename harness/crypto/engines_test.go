package crypto

import (
	"bytes"
	stdaes "crypto/aes"
	"crypto/cipher"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"

	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/aes"
	"github.com/inklabs/rangedb/pkg/crypto/xchacha20poly1305"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

var b64 = base64.StdEncoding

func engine(name string) crypto.Encryptor {
	switch name {
	case "gcm":
		return aes.NewGCM()
	case "cbc":
		return aes.NewCBCPKCS5Padding()
	}
	return xchacha20poly1305.New()
}

func keyLen(name string, n int) int {
	if name == "xchacha" {
		return 32
	}
	return []int{16, 24, 32}[n%3]
}

func goodLen(name string, n int) bool {
	return n == 32 || name != "xchacha" && (n == 16 || n == 24)
}

func authenticated(name string) bool { return name != "cbc" }

// Mut is one change made to a ciphertext.
type Mut struct {
	How string `json:"how"`
	N   int    `json:"n"`
	B   []byte `json:"b,omitempty"`
}

// EPlan exercises one engine with one key and plaintext.
type EPlan struct {
	Engine string `json:"engine"`
	Key    []byte `json:"key"`
	Key2   []byte `json:"key2"`
	BadKey []byte `json:"badkey"`
	Plain  []byte `json:"plain"`
	Muts   []Mut  `json:"muts"`
	Raw    string `json:"raw"`
}

func genBytes(min, max int) *rapid.Generator[[]byte] {
	return rapid.OneOf(
		rapid.SliceOfN(rapid.Byte(), min, max),
		rapid.Custom(func(t *rapid.T) []byte {
			return bytes.Repeat([]byte{rapid.Byte().Draw(t, "b")}, rapid.IntRange(min, max).Draw(t, "n"))
		}),
	)
}

func genMut(t *rapid.T) Mut {
	m := Mut{
		How: rapid.SampledFrom([]string{"flip", "flip", "flip", "cut", "cut", "head", "append", "set", "swap", "repeat", "random"}).Draw(t, "how"),
		N:   rapid.IntRange(0, 4000).Draw(t, "n"),
	}
	switch m.How {
	case "append", "random":
		m.B = genBytes(0, 70).Draw(t, "b")
	case "set":
		m.B = genBytes(1, 2).Draw(t, "b")
	}
	return m
}

func (m Mut) apply(in []byte) []byte {
	x := append([]byte(nil), in...)
	n := len(x)
	switch m.How {
	case "flip":
		if n > 0 {
			x[m.N/8%n] ^= 1 << (m.N % 8)
		}
	case "cut":
		if n > 0 {
			x = x[:m.N%n]
		}
	case "head":
		if n > 0 {
			x = x[m.N%n:]
		}
	case "append":
		x = append(x, m.B...)
	case "set":
		for i, b := range m.B {
			if n > 0 {
				x[(m.N+i)%n] = b
			}
		}
	case "swap":
		if n > 1 {
			a, b := m.N%n, (m.N/7+1)%n
			x[a], x[b] = x[b], x[a]
		}
	case "repeat":
		x = append(x, x...)
	case "random":
		x = m.B
	}
	return x
}

func guard(c *pbt.C, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if pbt.IsFailure(r) {
				panic(r)
			}
			c.Failf("%s panics: %v", what, r)
		}
	}()
	f()
}

func init() {
	pbt.Reg("C21", "engines", pbt.Opt{Quick: 150000, Thorough: 4000000, Shards: 6,
		Rule: "a case is one engine, key, plaintext and up to 12 damaged ciphertexts; non-trivial when at least one mutation really changes the ciphertext bytes"},
		func(t *rapid.T) EPlan {
			p := EPlan{Engine: rapid.SampledFrom([]string{"gcm", "cbc", "xchacha"}).Draw(t, "engine")}
			n := keyLen(p.Engine, rapid.IntRange(0, 2).Draw(t, "keylen"))
			p.Key = genBytes(n, n).Draw(t, "key")
			n = keyLen(p.Engine, rapid.IntRange(0, 2).Draw(t, "keylen2"))
			p.Key2 = genBytes(n, n).Draw(t, "key2")
			p.BadKey = genBytes(0, 70).Draw(t, "badkey")
			max := rapid.SampledFrom([]int{3, 20, 40, 300, 300, 5000}).Draw(t, "size")
			p.Plain = genBytes(0, max).Draw(t, "plain")
			p.Muts = rapid.SliceOfN(rapid.Custom(genMut), 0, 12).Draw(t, "muts")
			p.Raw = rapid.OneOf(rapid.StringN(0, 40, -1), rapid.StringMatching(`[A-Za-z0-9+/=\n]{0,60}`)).Draw(t, "raw")
			return p
		}, runEngine)

	pbt.Reg("C21", "crafted", pbt.Opt{Quick: 150000, Thorough: 4000000, Shards: 4,
		Rule: "a case is a ciphertext made from a key, an IV or nonce and padded plaintext by Go's own ciphers, where the padding of AES-CBC may be wrong in any way and the additional data of AES-GCM present; non-trivial when it must be refused"},
		genCrafted, runCrafted)
	pbt.Reg("C21", "randomness", pbt.Opt{Quick: 12000, Thorough: 300000, Shards: 2,
		Rule: "a case is an authenticated engine whose source of randomness gives few bytes at a time, or fails after some; non-trivial when it gives less than a nonce at once or fails"},
		genRandomness, runRandomness)
	pbt.Reg("C21", "parallel", pbt.Opt{Quick: 250, Thorough: 6000, Shards: 2, Race: true,
		Rule: "a case is several goroutines encrypting and decrypting with one shared engine; non-trivial when at least two goroutines run"},
		func(t *rapid.T) PPlan {
			p := PPlan{Engine: rapid.SampledFrom([]string{"gcm", "cbc", "xchacha"}).Draw(t, "engine"), Rounds: rapid.IntRange(1, 30).Draw(t, "rounds")}
			n := keyLen(p.Engine, rapid.IntRange(0, 2).Draw(t, "keylen"))
			p.Key = genBytes(n, n).Draw(t, "key")
			p.Plains = rapid.SliceOfN(genBytes(0, 80), 1, 6).Draw(t, "plains")
			return p
		}, runParallel)
}

func runEngine(c *pbt.C, p EPlan) {
	e := engine(p.Engine)
	c.Class("engine " + p.Engine)
	key, plain := b64.EncodeToString(p.Key), string(p.Plain)
	var text string
	guard(c, "Encrypt", func() {
		var err error
		if text, err = e.Encrypt(key, plain); err != nil {
			c.Failf("%s: cannot encrypt %d bytes with a key of %d: %v", p.Engine, len(plain), len(p.Key), err)
		}
	})
	raw, err := b64.DecodeString(text)
	if err != nil {
		c.Failf("%s: ciphertext is not base64: %v", p.Engine, err)
	}
	if len(plain) >= 8 && (bytes.Contains(raw, p.Plain) || bytes.Contains([]byte(text), p.Plain)) {
		c.Failf("%s: the ciphertext contains the plaintext", p.Engine)
	}
	again, err := e.Encrypt(key, plain)
	if err != nil {
		c.Failf("%s: second encryption: %v", p.Engine, err)
	}
	if again == text {
		c.Failf("%s: encrypting twice gives the same ciphertext %q", p.Engine, text)
	}
	decrypt := func(key, text, what string) (got string, err error) {
		guard(c, p.Engine+": decrypting "+what, func() { got, err = e.Decrypt(key, text) })
		return got, err
	}
	for _, x := range []string{text, again} {
		if got, err := decrypt(key, x, "a ciphertext"); err != nil || got != plain {
			c.Failf("%s: decrypted %.100q (%v), encrypted %.100q", p.Engine, got, err, plain)
		}
	}
	// An engine of the same kind, made later, must understand it.
	if got, err := engine(p.Engine).Decrypt(key, text); err != nil || got != plain {
		c.Failf("%s: another engine decrypted %.100q (%v), encrypted %.100q", p.Engine, got, err, plain)
	}
	// Keys.
	if !bytes.Equal(p.Key, p.Key2) {
		got, err := decrypt(b64.EncodeToString(p.Key2), text, "with another key")
		if authenticated(p.Engine) && err == nil {
			c.Failf("%s: decrypting with another key gives %.100q", p.Engine, got)
		}
		if err == nil && got == plain && len(plain) > 0 {
			c.Failf("%s: another key decrypts the ciphertext", p.Engine)
		}
	}
	if !goodLen(p.Engine, len(p.BadKey)) {
		bad := b64.EncodeToString(p.BadKey)
		guard(c, "Encrypt with a bad key", func() {
			if x, err := e.Encrypt(bad, plain); err == nil {
				c.Failf("%s: a key of %d bytes encrypts to %q", p.Engine, len(p.BadKey), x)
			}
		})
		if got, err := decrypt(bad, text, "with a bad key"); err == nil {
			c.Failf("%s: a key of %d bytes decrypts to %.100q", p.Engine, len(p.BadKey), got)
		}
		c.Class("bad key length")
	}
	if _, err := b64.DecodeString(p.Raw); err != nil {
		if got, err := decrypt(p.Raw, text, "with a key that is not base64"); err == nil {
			c.Failf("%s: key %q decrypts to %.100q", p.Engine, p.Raw, got)
		}
		guard(c, "Encrypt with a key that is not base64", func() {
			if _, err := e.Encrypt(p.Raw, plain); err == nil {
				c.Failf("%s: key %q encrypts", p.Engine, p.Raw)
			}
		})
		if got, err := decrypt(key, p.Raw, "text that is not base64"); err == nil {
			c.Failf("%s: %q decrypts to %.100q", p.Engine, p.Raw, got)
		}
	} else if got, err := decrypt(key, p.Raw, "arbitrary text"); err == nil && authenticated(p.Engine) {
		c.Failf("%s: %q decrypts to %.100q", p.Engine, p.Raw, got)
	}
	if got, err := decrypt(key, "", "nothing"); err == nil {
		c.Failf("%s: nothing decrypts to %q", p.Engine, got)
	}
	// Damage.
	changed := raw
	for i, m := range p.Muts {
		base := raw
		if i%3 == 2 { // some build on the previous one
			base = changed
		}
		changed = m.apply(base)
		if bytes.Equal(changed, raw) {
			continue
		}
		c.NonTrivial()
		c.Class(fmt.Sprintf("%s %s", p.Engine, m.How))
		got, err := decrypt(key, b64.EncodeToString(changed), fmt.Sprintf("a ciphertext of %d bytes made %d by %s", len(raw), len(changed), m.How))
		if err == nil && authenticated(p.Engine) {
			c.Failf("%s: a ciphertext changed by %s %d decrypts to %.100q", p.Engine, m.How, m.N, got)
		}
		if err == nil {
			c.Class("accepted as garbage")
		}
	}
	if raw2, _ := b64.DecodeString(text); !bytes.Equal(raw, raw2) {
		c.Failf("%s: the ciphertext was changed in place", p.Engine)
	}
	// What was refused leaves the engine working.
	if got, err := decrypt(key, text, "a ciphertext again"); err != nil || got != plain {
		c.Failf("%s: after refused inputs, decrypted %.100q (%v), encrypted %.100q", p.Engine, got, err, plain)
	}
}

// PPlan shares one engine between goroutines.
type PPlan struct {
	Engine string   `json:"engine"`
	Key    []byte   `json:"key"`
	Rounds int      `json:"rounds"`
	Plains [][]byte `json:"plains"`
}

func runParallel(c *pbt.C, p PPlan) {
	e := engine(p.Engine)
	key := b64.EncodeToString(p.Key)
	if len(p.Plains) > 1 {
		c.NonTrivial()
	}
	c.Class("engine " + p.Engine)
	var mu sync.Mutex
	prefixes := map[string]bool{}
	var wg sync.WaitGroup
	for _, plain := range p.Plains {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < p.Rounds; i++ {
				text, err := e.Encrypt(key, string(plain))
				if err != nil {
					c.Report("%s: %v", p.Engine, err)
					return
				}
				raw, _ := b64.DecodeString(text)
				got, err := e.Decrypt(key, text)
				if err != nil || got != string(plain) {
					c.Report("%s: decrypted %q (%v), encrypted %q", p.Engine, got, err, plain)
					return
				}
				if len(raw) < 12 {
					c.Report("%s: ciphertext of %d bytes", p.Engine, len(raw))
					return
				}
				mu.Lock()
				if prefixes[string(raw[:12])] {
					c.Report("%s: a nonce is used twice", p.Engine)
				}
				prefixes[string(raw[:12])] = true
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}

// Crafted is a ciphertext that was not made by an engine.
type Crafted struct {
	Engine string `json:"engine"`
	Key    []byte `json:"key"`
	IV     []byte `json:"iv"`
	Plain  []byte `json:"plain"`
	Pad    []byte `json:"pad"` // AES-CBC: the last bytes of the padded plaintext
	Odd    int    `json:"odd"` // AES-CBC: bytes after the last whole block
	AD     []byte `json:"ad"`  // AES-GCM
}

func genCrafted(t *rapid.T) Crafted {
	p := Crafted{Engine: rapid.SampledFrom([]string{"cbc", "cbc", "cbc", "gcm"}).Draw(t, "engine")}
	n := keyLen(p.Engine, rapid.IntRange(0, 2).Draw(t, "keylen"))
	p.Key = genBytes(n, n).Draw(t, "key")
	p.Plain = genBytes(0, 50).Draw(t, "plain")
	if p.Engine == "gcm" {
		p.IV = genBytes(12, 12).Draw(t, "nonce")
		if rapid.Bool().Draw(t, "with") {
			p.AD = genBytes(1, 5).Draw(t, "ad")
		}
		return p
	}
	p.IV = genBytes(16, 16).Draw(t, "iv")
	pad := 16 - len(p.Plain)%16
	p.Pad = bytes.Repeat([]byte{byte(pad)}, pad)
	switch rapid.IntRange(0, 5).Draw(t, "padding") {
	case 0: // one byte differs
		p.Pad[rapid.IntRange(0, pad-1).Draw(t, "at")] ^= byte(rapid.IntRange(1, 255).Draw(t, "by"))
	case 1: // all bytes the same, but a wrong number
		p.Pad = bytes.Repeat([]byte{byte(rapid.IntRange(0, 40).Draw(t, "value"))}, pad)
	case 2: // anything
		p.Pad = genBytes(pad, pad).Draw(t, "pad")
	case 3: // other schemes: zeros, or zeros and a length
		p.Pad = make([]byte, pad)
		if rapid.Bool().Draw(t, "ansi") {
			p.Pad[pad-1] = byte(pad)
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "ragged") == 0 {
		p.Odd = rapid.IntRange(1, 15).Draw(t, "odd")
	}
	return p
}

// unpad is PKCS5.
func unpad(b []byte) ([]byte, bool) {
	for pad := 1; pad <= 16 && pad <= len(b); pad++ {
		if bytes.HasSuffix(b, bytes.Repeat([]byte{byte(pad)}, pad)) {
			return b[:len(b)-pad], true
		}
	}
	return nil, false
}

func runCrafted(c *pbt.C, p Crafted) {
	c.Class("engine " + p.Engine)
	block, err := stdaes.NewCipher(p.Key)
	if err != nil {
		c.Failf("%v", err)
	}
	want, ok := p.Plain, len(p.AD) == 0
	text := append([]byte(nil), p.IV...)
	if p.Engine == "gcm" {
		aead, err := cipher.NewGCM(block)
		if err != nil {
			c.Failf("%v", err)
		}
		text = aead.Seal(text, p.IV, p.Plain, p.AD)
	} else {
		padded := append(append([]byte(nil), p.Plain...), p.Pad...)
		want, ok = unpad(padded)
		out := make([]byte, len(padded)+p.Odd)
		cipher.NewCBCEncrypter(block, p.IV).CryptBlocks(out[:len(padded)], padded)
		text = append(text, out...)
		ok = ok && p.Odd == 0
	}
	var got string
	guard(c, "Decrypt", func() { got, err = engine(p.Engine).Decrypt(b64.EncodeToString(p.Key), b64.EncodeToString(text)) })
	if !ok {
		c.NonTrivial()
		if err == nil {
			c.Failf("%s: a ciphertext with padding %x, %d bytes of a block and %d bytes of additional data is decrypted to %q", p.Engine, p.Pad, p.Odd, len(p.AD), got)
		}
		return
	}
	if err != nil || got != string(want) {
		c.Failf("%s: decrypted %q (%v) from a ciphertext of %q", p.Engine, got, err, want)
	}
}

// Randomness is a source of randomness with a mind of its own.
type Randomness struct {
	Engine string `json:"engine"`
	Seed   int64  `json:"seed"`
	Chunks []int  `json:"chunks"`
	Fail   int    `json:"fail"` // it fails after so many bytes; 0: never
	EOF    bool   `json:"eof"`
	Key    []byte `json:"key"`
	Rounds int    `json:"rounds"`
}

func genRandomness(t *rapid.T) Randomness {
	p := Randomness{Engine: rapid.SampledFrom([]string{"gcm", "xchacha"}).Draw(t, "engine"), Seed: int64(rapid.IntRange(0, 1<<30).Draw(t, "seed"))}
	p.Chunks = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 1, 2, 5, 8, 11, 12, 23, 24, 100}), 1, 4).Draw(t, "chunks")
	if rapid.Bool().Draw(t, "fails") {
		p.Fail = rapid.IntRange(1, 100).Draw(t, "fail")
		p.EOF = rapid.Bool().Draw(t, "eof")
	}
	n := keyLen(p.Engine, rapid.IntRange(0, 2).Draw(t, "keylen"))
	p.Key = genBytes(n, n).Draw(t, "key")
	p.Rounds = rapid.IntRange(1, 40).Draw(t, "rounds")
	return p
}

type randomSource struct {
	p     Randomness
	r     *rand.Rand
	calls int
	given int
}

func (s *randomSource) Read(b []byte) (int, error) {
	n := min(s.p.Chunks[s.calls%len(s.p.Chunks)], len(b))
	if s.calls++; n == 0 && s.calls%3 == 0 {
		n = min(1, len(b))
	}
	if s.p.Fail > 0 && s.given+n >= s.p.Fail {
		n = s.p.Fail - s.given
	}
	s.r.Read(b[:n])
	s.given += n
	if s.p.Fail > 0 && s.given >= s.p.Fail {
		if s.p.EOF {
			return n, io.EOF
		}
		return n, errors.New("no entropy")
	}
	return n, nil
}

func runRandomness(c *pbt.C, p Randomness) {
	e := engine(p.Engine)
	source := &randomSource{p: p, r: rand.New(rand.NewSource(p.Seed))}
	s, ok := e.(interface{ SetRandReader(io.Reader) })
	if !ok {
		return
	}
	s.SetRandReader(source)
	size := 12
	if p.Engine == "xchacha" {
		size = 24
	}
	key := b64.EncodeToString(p.Key)
	nonces := map[string]bool{}
	failed := false
	for i := 0; i < p.Rounds; i++ {
		before := source.given
		text, err := e.Encrypt(key, "text")
		enough := source.given-before >= size
		if err != nil {
			if enough {
				// All it needed was there.
				c.Failf("%s: encrypting fails with %v after %d bytes of randomness", p.Engine, err, source.given-before)
			}
			if p.Fail == 0 {
				c.Failf("%s: encrypting fails with %v", p.Engine, err)
			}
			if text != "" {
				c.Failf("%s: %q along with %v", p.Engine, text, err)
			}
			failed = true
			continue
		}
		if !enough {
			c.Failf("%s: encrypted after %d bytes of randomness, a nonce takes %d", p.Engine, source.given-before, size)
		}
		raw, err := b64.DecodeString(text)
		if err != nil || len(raw) < size {
			c.Failf("%s: ciphertext %q", p.Engine, text)
		}
		if nonces[string(raw[:size])] {
			c.Failf("%s: a nonce is used twice", p.Engine)
		}
		nonces[string(raw[:size])] = true
		if got, err := e.Decrypt(key, text); err != nil || got != "text" {
			c.Failf("%s: decrypted %q, %v", p.Engine, got, err)
		}
	}
	if failed {
		c.Class("source fails")
	}
	if failed || p.Chunks[0] < size {
		c.NonTrivial()
	}
}
