package main

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"math/big"
	"runtime"
	"sync"
	"time"

	"github.com/ZZMarquis/gm/sm2"
	"pgregory.net/rapid"

	"gmverif/ref"
)

// sharedEntropy is a source that many goroutines may read at once, like the
// system's, but slow, so that the draws of concurrent operations overlap.
type sharedEntropy struct {
	mu    sync.Mutex
	src   *entropyReader
	wait  time.Duration
	after bool // wait after taking the bytes instead of before
}

func (r *sharedEntropy) pause() {
	if r.wait > 0 {
		time.Sleep(r.wait)
	} else {
		runtime.Gosched()
	}
}

func (r *sharedEntropy) Read(p []byte) (int, error) {
	if !r.after {
		r.pause()
	}
	r.mu.Lock()
	n, err := r.src.Read(p)
	r.mu.Unlock()
	if r.after {
		r.pause()
	}
	return n, err
}

type togetherCase struct {
	Keys  []*big.Int
	Steps [][]nonceStep // one list per goroutine
	E     Entropy
	Wait  int // microseconds
	After bool
	Procs int
}

func genTogether(enc int) func(t *rapid.T) togetherCase {
	return func(t *rapid.T) togetherCase {
		c := togetherCase{E: genEntropy(t, "e", nil), Wait: pick(t, "wait", 0, 50, 200, 500), After: coin(t, "after", 1, 2), Procs: pick(t, "procs", 0, 0, 1, 2)}
		for i, n := 0, intR(t, "keys", 1, 2); i < n; i++ {
			c.Keys = append(c.Keys, genScalar(t, "d", 1))
		}
		msgs := []HB{genMsg(t, "m0", 40), genMsg(t, "m1", 40)}
		for i, n := 0, intR(t, "goroutines", 2, 12); i < n; i++ {
			var l []nonceStep
			for j, m := 0, intR(t, "n", 1, 3); j < m; j++ {
				st := nonceStep{Key: intR(t, "key", 0, len(c.Keys)-1), Msg: pick(t, "msg", msgs...), RS: coin(t, "rs", 1, 2)}
				if coin(t, "enc", enc, 8) {
					st.Enc = pick(t, "layout", 1, 2, 1, 2, 3)
					if len(st.Msg) == 0 {
						st.Msg = HB{1}
					}
				}
				l = append(l, st)
			}
			c.Steps = append(c.Steps, l)
		}
		return c
	}
}

// runTogether: operations that draw secrets at the same time draw different
// ones, and every outcome is valid.
func runTogether(rec *Rec, c togetherCase) error {
	if c.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	}
	rec.NT()
	rec.Class("%d goroutines", len(c.Steps)/4*4)
	rec.Class("wait %d us", c.Wait)
	rounds := 1
	if rec.Replay {
		rounds = 30
	}
	for ; rounds > 0; rounds-- {
		if err := together(c); err != nil {
			return err
		}
	}
	return nil
}

func together(c togetherCase) error {
	src := &sharedEntropy{src: newEntropy(c.E), wait: time.Duration(c.Wait) * time.Microsecond, after: c.After}
	rand.Reader = src
	type outcome struct {
		r, s *big.Int
		ct   []byte
		priv *sm2.PrivateKey
		pub  *sm2.PublicKey
	}
	outs := make([][]outcome, len(c.Steps))
	errs := make([]error, len(c.Steps))
	var pubs []ref.Pt
	for _, d := range c.Keys {
		pubs = append(pubs, ref.MulG(d))
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, l := range c.Steps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[i] = fail("goroutine %d: panic: %v", i, p)
				}
			}()
			<-start
			for j, st := range l {
				var o outcome
				var err error
				switch {
				case st.Enc == 3:
					o.priv, o.pub, err = sm2.GenerateKey(src)
				case st.Enc > 0:
					o.ct, err = sm2.Encrypt(mkPub(pubs[st.Key]), st.Msg, lay(st.Enc))
				case st.RS:
					o.r, o.s, err = sm2.SignToRS(mkPriv(c.Keys[st.Key]), st.ID, st.Msg)
				default:
					var der []byte
					if der, err = sm2.Sign(mkPriv(c.Keys[st.Key]), st.ID, st.Msg); err == nil {
						var ok bool
						if o.r, o.s, ok = ref.ReadSig(der); !ok {
							err = fmt.Errorf("signature %x", der)
						}
					}
				}
				if err != nil {
					errs[i] = fail("goroutine %d, operation %d: %v", i, j, err)
					return
				}
				outs[i] = append(outs[i], o)
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	points := map[string]string{}
	point := func(x *big.Int, name string) error {
		if old, dup := points[string(b32(x))]; dup {
			return fail("%s and %s, made at the same time, use the same secret", old, name)
		}
		points[string(b32(x))] = name
		return nil
	}
	var ks []*big.Int
	ops := 0
	for i, l := range c.Steps {
		for j, st := range l {
			o, d := outs[i][j], c.Keys[st.Key]
			ops++
			name := fmt.Sprintf("operation %d of goroutine %d", j, i)
			var x *big.Int
			switch {
			case st.Enc == 3:
				if err := checkPub(o.pub, ref.MulG(o.priv.D), "GenerateKey"); err != nil {
					return err
				}
				x = o.pub.X
			case st.Enc > 0:
				if m, ok := ref.Decrypt(d, o.ct, st.Enc); !ok || !bytes.Equal(m, st.Msg) {
					return fail("%s: ciphertext %s does not decrypt to the plaintext", name, hexs(o.ct))
				}
				x = new(big.Int).SetBytes(o.ct[1:33])
			default:
				if !ref.Verify(pubs[st.Key].X, pubs[st.Key].Y, idOf(st.ID), st.Msg, o.r, o.s) {
					return fail("%s: invalid signature", name)
				}
				k := ref.Nonce(d, o.r, o.s)
				if k.Sign() == 0 {
					return fail("%s: nonce 0", name)
				}
				ks = append(ks, k)
				x = ref.MulG(k).X
			}
			if err := point(x, name); err != nil {
				return err
			}
		}
	}
	if src.src.given < 31*ops {
		return fail("%d operations were made from %d bytes of entropy", ops, src.src.given)
	}
	return checkUniform(ks)
}
