// An issuer, a chain and an off-chain publication to show a
// defect with.  The zero-knowledge proof system is replaced by an ideal one
// (stubs/).
package identity_test

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/iden3/go-circom-prover-verifier/parsers"
	witnesscalc "github.com/iden3/go-circom-witnesscalc"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	offlocal "github.com/iden3/go-iden3-core/components/idenpuboffchain/local"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	onlocal "github.com/iden3/go-iden3-core/components/idenpubonchain/local"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

func zkDir(t *testing.T, circuit string, n int, f func(map[string]interface{}) ([]*big.Int, error)) (*zkutils.ZkFiles, string) {
	d := filepath.Join(t.TempDir(), circuit)
	must(t, os.MkdirAll(d, 0700))
	put := func(name, content string) string {
		must(t, ioutil.WriteFile(filepath.Join(d, name), []byte(content), 0600))
		h := sha256.Sum256([]byte(content))
		return hex.EncodeToString(h[:])
	}
	hs := zkutils.ZkFilesHashes{
		ProvingKey:      put("proving_key.json", fmt.Sprintf(`{"kind":"pk","circuit":%q,"nPublic":%d}`, circuit, n)),
		VerificationKey: put("verification_key.json", fmt.Sprintf(`{"kind":"vk","circuit":%q,"nPublic":%d}`, circuit, n)),
		WitnessCalcWASM: put("circuit.wasm", "wasm:"+circuit),
	}
	witnesscalc.Circuits["wasm:"+circuit] = f
	return zkutils.NewZkFiles("http://127.0.0.1:1/none", d, zkutils.ProvingKeyFormatJSON, hs, true), d
}

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

type world struct {
	t       *testing.T
	block   uint64
	now     int64
	chain   *onlocal.IdenPubOnChain
	off     *offlocal.IdenPubOffChain
	writer  idenpuboffchain.IdenPubOffChainWriter
	on      idenpubonchain.IdenPubOnChainer
	ks      *keystore.KeyStore
	keys    []*babyjub.PublicKeyComp
	zk      *issuer.IdenStateZkProofConf
	storage db.Storage
	is      *issuer.Issuer
}

func newWorld(t *testing.T) *world {
	w := &world{t: t, block: 100, now: 1600000000}
	files, d := zkDir(t, "idstate", 3, func(in map[string]interface{}) ([]*big.Int, error) {
		return []*big.Int{in["id"].(*big.Int), in["oldIdState"].(*big.Int), in["newIdState"].(*big.Int)}, nil
	})
	b, err := ioutil.ReadFile(filepath.Join(d, "verification_key.json"))
	must(t, err)
	vk, err := parsers.ParseVk(b)
	must(t, err)
	w.zk = &issuer.IdenStateZkProofConf{Levels: 16, Files: *files}
	w.chain = onlocal.New(func() time.Time { return time.Unix(w.now, 0) }, func() uint64 { return w.block }, vk)
	w.off = offlocal.NewIdenPubOffChain("http://local")
	w.writer, w.on = w.off, w.chain
	w.ks, err = keystore.NewKeyStore(&keystore.MemStorage{}, keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1})
	must(t, err)
	for i := 0; i < 3; i++ {
		var sk babyjub.PrivateKey
		sk[0] = byte(i + 1)
		pk, err := w.ks.ImportKey(sk, []byte("pass"))
		must(t, err)
		must(t, w.ks.UnlockKey(pk, []byte("pass")))
		w.keys = append(w.keys, pk)
	}
	w.storage = db.NewMemoryStorage()
	return w
}

// create makes a new issuer of the world.
func (w *world) create(cfg issuer.Config, extra ...claims.Claimer) {
	w.t.Helper()
	_, err := issuer.Create(cfg, w.keys[0], extra, w.storage, w.ks)
	must(w.t, err)
	w.load()
}

func (w *world) load() {
	w.t.Helper()
	is, err := issuer.Load(w.storage, w.ks, w.on, w.zk, w.writer)
	must(w.t, err)
	w.is = is
}

func basic(n byte) claims.Claimer {
	var s [claims.IndexSlotLen]byte
	var v [claims.ValueSlotLen]byte
	s[0], v[len(v)-1] = n, n
	return claims.NewClaimBasic(s, v)
}

// mine executes what was sent and lets n blocks pass.
func (w *world) mine(n uint64) {
	w.chain.Sync()
	w.block += n
	w.now += int64(15 * n)
}

// settle publishes and waits until the state is on chain.
func (w *world) settle() {
	w.t.Helper()
	must(w.t, w.is.PublishState())
	w.mine(20)
	must(w.t, w.is.SyncIdenStatePublic())
}
