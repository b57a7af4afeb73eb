package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/iden3/go-circom-prover-verifier/parsers"
	"github.com/iden3/go-circom-prover-verifier/prover"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-circom-prover-verifier/verifier"
	witnesscalc "github.com/iden3/go-circom-witnesscalc"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/genesis"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/keystore"
	mt "github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

// The surroundings of identities: key store, circuits and proof files, a chain
// and an off-chain publication, all controlled by the specification.

const baseTime = 1600000000

// the world that does not change between behaviours
type idWorld struct {
	ks      *keystore.KeyStore
	keys    []*babyjub.PublicKeyComp
	dir     string
	state   *zkutils.ZkFiles // circuit of the state transition
	cred    *zkutils.ZkFiles // circuit of the credential
	stateVk *zktypes.Vk
	holder  *holder.Holder
	hStore  db.Storage
	hClr    H
	front   *chainFront
	reader  *readerFront
	txKey   *ecdsa.PrivateKey
}

var world *idWorld

const levelsState = 20

func zkDir(dir, circuit string, n int, format zkutils.ProvingKeyFormat) *zkutils.ZkFiles {
	d := filepath.Join(dir, circuit)
	must(os.MkdirAll(d, 0700))
	put := func(name, content string) string {
		must(ioutil.WriteFile(filepath.Join(d, name), []byte(content), 0600))
		h := sha256.Sum256([]byte(content))
		return hex.EncodeToString(h[:])
	}
	hs := zkutils.ZkFilesHashes{
		ProvingKey:      put(fmt.Sprintf("proving_key.%v", format), fmt.Sprintf(`{"kind":"pk","circuit":%q,"nPublic":%d}`, circuit, n)),
		VerificationKey: put("verification_key.json", fmt.Sprintf(`{"kind":"vk","circuit":%q,"nPublic":%d}`, circuit, n)),
		WitnessCalcWASM: put("circuit.wasm", "wasm:"+circuit),
	}
	return zkutils.NewZkFiles("http://127.0.0.1:1/none", d, format, hs, true)
}

func getWorld(c *Ctx) *idWorld {
	if world != nil {
		return world
	}
	w := &idWorld{dir: c.dir, front: &chainFront{}, reader: &readerFront{}}
	ks, err := keystore.NewKeyStore(&keystore.MemStorage{}, keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1})
	must(err)
	w.ks = ks
	for i := 0; i < 5; i++ {
		var sk babyjub.PrivateKey
		h := sha256.Sum256([]byte{byte(i), 0x77})
		copy(sk[:], h[:])
		pk, err := ks.ImportKey(sk, []byte("pass"))
		must(err)
		must(ks.UnlockKey(pk, []byte("pass")))
		w.keys = append(w.keys, pk)
	}
	w.state = zkDir(c.dir, "idstate", 3, zkutils.ProvingKeyFormatJSON)
	w.cred = zkDir(c.dir, "credential", 1, zkutils.ProvingKeyFormatBin)
	b, err := ioutil.ReadFile(filepath.Join(c.dir, "idstate", "verification_key.json"))
	must(err)
	w.stateVk, err = parsers.ParseVk(b)
	must(err)
	witnesscalc.Circuits["wasm:idstate"] = circuitState
	witnesscalc.Circuits["wasm:credential"] = circuitCred
	w.txKey, err = ethcrypto.ToECDSA(bytes.Repeat([]byte{7}, 32))
	must(err)
	// the holder is a genesis-only identity
	w.hStore = db.NewMemoryStorage()
	hk := w.keys[4]
	cfg := holder.ConfigDefault
	_, err = holder.Create(cfg, hk, nil, w.hStore, ks)
	must(err)
	w.holder, err = holder.Load(w.hStore, ks, w.front, nil, nil, w.reader)
	must(err)
	_, rts := w.holder.State()
	w.hClr = m2h(rts.ClaimsTreeRoot)
	world = w
	return w
}

/************************************ circuits *******************************/

func inBig(in map[string]interface{}, k string) (*big.Int, error) {
	x, ok := in[k].(*big.Int)
	if !ok || x == nil {
		return nil, fmt.Errorf("input %s is %T", k, in[k])
	}
	return x, nil
}
func inBigs(in map[string]interface{}, k string) ([]*big.Int, error) {
	x, ok := in[k].([]*big.Int)
	if !ok {
		return nil, fmt.Errorf("input %s is %T", k, in[k])
	}
	for _, v := range x {
		if v == nil {
			return nil, fmt.Errorf("input %s has a nil element", k)
		}
	}
	return x, nil
}

// climb is the root of the path given by circuit siblings (zero padded).
func climb(sibs []*big.Int, hi, start H) (H, error) {
	if len(sibs) == 0 || sibs[len(sibs)-1].Sign() != 0 {
		return H{}, errors.New("the last sibling of the circuit must be zero")
	}
	n := len(sibs)
	for n > 0 && sibs[n-1].Sign() == 0 {
		n--
	}
	h := start
	for i := n - 1; i >= 0; i-- {
		s := bigToH(sibs[i])
		if refBit(hi, i) == 1 {
			h = mMid(s, h)
		} else {
			h = mMid(h, s)
		}
	}
	return h, nil
}

var kopMemo = map[string][2]H{}

// kopEntry is the leaf of the operational key with the given secret scalar.
func kopEntry(scalar *big.Int) [2]H {
	k := scalar.String()
	if e, ok := kopMemo[k]; ok {
		return e
	}
	p := babyjub.NewPoint().Mul(scalar, babyjub.B8)
	pk := babyjub.PublicKey(*p)
	e := refEntry(claims.NewClaimKeyBabyJub(&pk, claims.BabyJubKeyTypeAuthorizeKSign).Entry().Data)
	kopMemo[k] = e
	return e
}

// rootsLeaf is the leaf of a claims root in the roots tree.
func rootsLeaf(clr H) [2]H {
	var d mt.Data
	d[0] = mt.ElemBytes(clr)
	return refEntryMemo(d)
}

// revLeaf is the leaf of a revoked nonce.
func revLeaf(nonce uint32) [2]H {
	var d mt.Data
	copy(d[0][:4], u32(nonce))
	copy(d[4][:4], u32(0xffffffff))
	return refEntryMemo(d)
}

var entryMemo = map[mt.Data][2]H{}

func refEntryMemo(d mt.Data) [2]H {
	if e, ok := entryMemo[d]; ok {
		return e
	}
	e := refEntry(d)
	entryMemo[d] = e
	return e
}

func genesisID(clr H) core.ID {
	l := rootsLeaf(clr)
	st := refPoseidon(clr, H{}, mLeaf(l[0], l[1]))
	var g [27]byte
	copy(g[:], st[5:])
	return core.NewID([2]byte{0, 0}, g)
}

func idBig(id core.ID) *big.Int {
	var h H
	copy(h[:], id[:])
	return hToBig(h)
}

// circuitState is the circuit of the identity state transition.
func circuitState(in map[string]interface{}) ([]*big.Int, error) {
	if len(in) != 6 {
		return nil, fmt.Errorf("%d inputs", len(in))
	}
	v := map[string]*big.Int{}
	for _, k := range []string{"id", "oldIdState", "newIdState", "userPrivateKey", "claimsTreeRoot"} {
		x, err := inBig(in, k)
		if err != nil {
			return nil, err
		}
		v[k] = x
	}
	sibs, err := inBigs(in, "siblings")
	if err != nil {
		return nil, err
	}
	if len(sibs) != levelsState+1 {
		return nil, fmt.Errorf("%d siblings", len(sibs))
	}
	e := kopEntry(v["userPrivateKey"])
	root, err := climb(sibs, e[0], mLeaf(e[0], e[1]))
	if err != nil {
		return nil, err
	}
	if hToBig(root).Cmp(v["claimsTreeRoot"]) != 0 {
		return nil, errors.New("the key is not in the claims tree")
	}
	if idBig(genesisID(root)).Cmp(v["id"]) != 0 {
		return nil, errors.New("the identity is not the one of the claims tree")
	}
	return []*big.Int{v["id"], v["oldIdState"], v["newIdState"]}, nil
}

var credLevels [2]int // ownership, issuer
var credInputs map[string]*big.Int

// circuitCred is the circuit of the ownership of a credential.
func circuitCred(in map[string]interface{}) ([]*big.Int, error) {
	v := map[string]*big.Int{}
	for _, k := range []string{"hoKOpSk", "hoClaimKOpClaimsTreeRoot", "isProofExistClaimsTreeRoot", "isProofValidNotRevMtpNoAux", "isProofValidNotRevMtpAuxHi",
		"isProofValidNotRevMtpAuxHv", "isProofValidClaimsTreeRoot", "isProofValidRevTreeRoot", "isProofValidRootsTreeRoot", "isIdenState"} {
		x, err := inBig(in, k)
		if err != nil {
			return nil, err
		}
		v[k] = x
	}
	s := map[string][]*big.Int{}
	for _, k := range []string{"hoClaimKOpMtp", "isProofExistMtp", "isProofValidNotRevMtp", "isProofRootMtp", "claim"} {
		x, err := inBigs(in, k)
		if err != nil {
			return nil, err
		}
		want := credLevels[1] + 1
		switch k {
		case "hoClaimKOpMtp":
			want = credLevels[0] + 1
		case "claim":
			want = 8
		}
		if len(x) != want {
			return nil, fmt.Errorf("%s has %d elements, want %d", k, len(x), want)
		}
		s[k] = x
	}
	if len(in) != 15 {
		return nil, fmt.Errorf("%d inputs", len(in))
	}
	credInputs = v
	// B. the holder's key
	e := kopEntry(v["hoKOpSk"])
	root, err := climb(s["hoClaimKOpMtp"], e[0], mLeaf(e[0], e[1]))
	if err != nil || hToBig(root).Cmp(v["hoClaimKOpClaimsTreeRoot"]) != 0 {
		return nil, errors.New("the holder's key is not in the holder's claims tree")
	}
	// C. the claim
	var d mt.Data
	for i := range d {
		d[i] = mt.ElemBytes(bigToH(s["claim"][i]))
	}
	ce := refEntryMemo(d)
	root, err = climb(s["isProofExistMtp"], ce[0], mLeaf(ce[0], ce[1]))
	if err != nil || hToBig(root).Cmp(v["isProofExistClaimsTreeRoot"]) != 0 {
		return nil, errors.New("the claim is not in the claims tree")
	}
	// D. not revoked
	var n [4]byte
	copy(n[:], d[4][:4])
	nonce := uint32(n[0]) | uint32(n[1])<<8 | uint32(n[2])<<16 | uint32(n[3])<<24
	rl := revLeaf(nonce)
	start := H{}
	switch {
	case v["isProofValidNotRevMtpNoAux"].Cmp(big.NewInt(1)) == 0:
	case v["isProofValidNotRevMtpNoAux"].Sign() == 0:
		if bigToH(v["isProofValidNotRevMtpAuxHi"]) == rl[0] {
			return nil, errors.New("revoked")
		}
		start = mLeaf(bigToH(v["isProofValidNotRevMtpAuxHi"]), bigToH(v["isProofValidNotRevMtpAuxHv"]))
	default:
		return nil, errors.New("NoAux is not a bit")
	}
	root, err = climbZ(s["isProofValidNotRevMtp"], rl[0], start)
	if err != nil || hToBig(root).Cmp(v["isProofValidRevTreeRoot"]) != 0 {
		return nil, errors.New("the proof of non revocation is wrong")
	}
	// E. the claims root in the roots tree
	ro := rootsLeaf(bigToH(v["isProofExistClaimsTreeRoot"]))
	root, err = climb(s["isProofRootMtp"], ro[0], mLeaf(ro[0], ro[1]))
	if err != nil || hToBig(root).Cmp(v["isProofValidRootsTreeRoot"]) != 0 {
		return nil, errors.New("the claims root is not in the roots tree")
	}
	// F. the state
	st := refPoseidon(bigToH(v["isProofValidClaimsTreeRoot"]), bigToH(v["isProofValidRevTreeRoot"]), bigToH(v["isProofValidRootsTreeRoot"]))
	if hToBig(st).Cmp(v["isIdenState"]) != 0 {
		return nil, errors.New("the roots do not make the state")
	}
	return []*big.Int{v["isIdenState"]}, nil
}

// climbZ is climb for an absent leaf.
func climbZ(sibs []*big.Int, hi, start H) (H, error) { return climb(sibs, hi, start) }

/************************************ chain **********************************/

type fakeTx struct {
	init     bool
	id       core.ID
	old, new H // init only: old as submitted
	proof    zktypes.Proof
	blk      uint64
	ok       bool
	tx       *types.Transaction
}

// fakeChain is a chain with the contract of the identity states; the
// specification tells when blocks are mined and which transactions succeed.
type fakeChain struct {
	w     *idWorld
	blk   uint64
	scale uint64 // blocks for one block of the specification
	recs  map[core.ID][]proof.IdenStateData
	txs   []*fakeTx
	fault string // "submit", "getstate", "receipt"
	how   string
	fired bool
	rogue *H
	asked int // answers given by GetState
	odd   string
}

func (f *fakeChain) hit(k string) bool {
	if f.fault == k {
		f.fault, f.fired = "", true
		return true
	}
	return false
}
func copyData(d proof.IdenStateData) *proof.IdenStateData {
	h := *d.IdenState
	d.IdenState = &h
	return &d
}

var errChain = errors.New("injected chain fault")

func (f *fakeChain) GetState(id *core.ID) (*proof.IdenStateData, error) {
	if f.hit("getstate") {
		return nil, errChain
	}
	f.asked++
	if f.rogue != nil {
		return &proof.IdenStateData{BlockN: 1, BlockTs: baseTime, IdenState: h2m(*f.rogue)}, nil
	}
	l := f.recs[*id]
	if len(l) == 0 {
		return nil, idenpubonchain.ErrIdenNotOnChain
	}
	return copyData(l[len(l)-1]), nil
}
func (f *fakeChain) GetStateByBlock(id *core.ID, n uint64) (*proof.IdenStateData, error) {
	l := f.recs[*id]
	if len(l) == 0 {
		return nil, idenpubonchain.ErrIdenNotOnChain
	}
	// The client answers for the exact block only (GetStateClosestToBlock is for others).
	for _, d := range l {
		if d.BlockN == n {
			return copyData(d), nil
		}
	}
	return nil, idenpubonchain.ErrIdenByBlockNotFound
}
func (f *fakeChain) GetStateByTime(id *core.ID, ts int64) (*proof.IdenStateData, error) {
	for _, d := range f.recs[*id] {
		if d.BlockTs == ts {
			return copyData(d), nil
		}
	}
	return nil, idenpubonchain.ErrIdenByTimeNotFound
}
func (f *fakeChain) submit(t *fakeTx) (*types.Transaction, error) {
	if f.fault == "submit" {
		how := f.how
		f.fault, f.fired = "", true
		switch how {
		case "fail":
			return nil, errChain
		case "before":
			panic(crashSignal{})
		case "late":
			f.add(t)
			return nil, errChain
		case "after":
			f.add(t)
			panic(crashSignal{})
		}
	}
	f.add(t)
	return t.tx, nil
}
func (f *fakeChain) add(t *fakeTx) {
	data := append(append([]byte{}, t.id[:]...), t.new[:]...)
	raw := types.NewTransaction(uint64(len(f.txs)), common.Address{1}, big.NewInt(0), 100000, big.NewInt(1), data)
	tx, err := types.SignTx(raw, types.NewEIP155Signer(big.NewInt(4)), f.w.txKey)
	must(err)
	t.tx = tx
	f.txs = append(f.txs, t)
}
func (f *fakeChain) InitState(id *core.ID, gen, new *mt.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	return f.submit(&fakeTx{init: true, id: *id, old: m2h(gen), new: m2h(new), proof: *p})
}
func (f *fakeChain) SetState(id *core.ID, new *mt.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	return f.submit(&fakeTx{id: *id, new: m2h(new), proof: *p})
}
func (f *fakeChain) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) {
	if f.hit("receipt") {
		return nil, errChain
	}
	if tx == nil {
		f.odd = "asked for the confirmations of no transaction"
		return nil, errors.New("no transaction")
	}
	for _, t := range f.txs {
		if t.tx.Hash() == tx.Hash() {
			switch {
			case t.blk == 0:
				return nil, eth.ErrReceiptNotReceived
			case !t.ok:
				return nil, eth.ErrReceiptStatusFailed
			}
			return new(big.Int).SetUint64(f.blk - t.blk), nil
		}
	}
	f.odd = "asked for the confirmations of a transaction that was never sent"
	return nil, errors.New("unknown transaction")
}

// proves tells whether the proof of t is for the transition from old.
func (t *fakeTx) proves(old H) bool {
	return verifier.Verify(world.stateVk, &t.proof, []*big.Int{idBig(t.id), hToBig(old), hToBig(t.new)})
}

// chainFront lets a long-lived object talk to the chain of this behaviour.
type chainFront struct {
	idenpubonchain.IdenPubOnChainer
}

// peekChain shows an issuer what it already knows.
type peekChain struct {
	idenpubonchain.IdenPubOnChainer
	on *proof.IdenStateData
}

func (p *peekChain) GetState(id *core.ID) (*proof.IdenStateData, error) {
	if p.on == nil {
		return nil, idenpubonchain.ErrIdenNotOnChain
	}
	return copyData(*p.on), nil
}
func (p *peekChain) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) {
	if tx == nil {
		return nil, errors.New("no transaction")
	}
	return nil, eth.ErrReceiptNotReceived
}

/********************************** off chain ********************************/

type offWriter struct {
	idenpuboffchain.IdenPubOffChainWriter
	fault bool
	fired bool
}

func (o *offWriter) Publish(id *core.ID, p *idenpuboffchain.PublicData) error {
	if o.fault {
		o.fault, o.fired = false, true
		return errors.New("injected publication fault")
	}
	return o.IdenPubOffChainWriter.Publish(id, p)
}

// readerFront is the off-chain reader of the holder.
type readerFront struct {
	f   func(url string, id *core.ID, st *mt.Hash) (*idenpuboffchain.PublicData, error)
	sub *H // answer for this state instead
}

func (r *readerFront) GetPublicData(url string, id *core.ID, st *mt.Hash) (*idenpuboffchain.PublicData, error) {
	if r.sub != nil {
		st = h2m(*r.sub)
	}
	return r.f(url, id, st)
}

var proverMu sync.Mutex

func setProver(f func(p *zktypes.Proof) error) {
	proverMu.Lock()
	defer proverMu.Unlock()
	prover.Fail = f
}

/*********************************** claims **********************************/

type entrier struct{ d mt.Data }

func (e entrier) Entry() *mt.Entry { return &mt.Entry{Data: e.d} }

// idContent is the claim number n of the specification.
func idContent(n int, exp int64) claims.Claimer {
	var cl claims.Claimer
	switch n % 4 {
	case 0:
		var s [claims.IndexSubjectSlotLen]byte
		var v [claims.ValueSlotLen]byte
		s[0], s[len(s)-1] = byte(n), byte(n)
		cl = claims.NewClaimOtherIden(world.holder.ID(), s, v)
	case 1:
		var s [claims.IndexSlotLen]byte
		var v [claims.ValueSlotLen]byte
		s[0] = byte(n)
		cl = claims.NewClaimBasic(s, v)
	case 2:
		k, _ := world.keys[n%5].Decompress()
		cl = claims.NewClaimKeyBabyJub(k, claims.BabyJubKeyType(n))
	case 3:
		var s [claims.IndexSlotLen]byte
		var v [claims.ValueSlotLen]byte
		s[len(s)-1] = byte(n)
		v[len(v)-1] = byte(n)
		cl = claims.NewClaimBasic(s, v)
	}
	if exp != 0 {
		h := cl.Metadata().Header()
		h.Expiration = true
		m := claims.NewMetadata(h)
		m.Subject = cl.Metadata().Subject
		m.Expiration = baseTime + exp
		if exp >= 1e9 { // never in the lifetime of a behaviour
			m.Expiration = []int64{baseTime + exp, 1<<31 + baseTime%1000, 1<<32 + 5, 1 << 40, 1<<63 - 1}[n%5]
		}
		*cl.Metadata() = m
	}
	return cl
}

var _ = genesis.CalculateIdGenesis
var _ = issuer.ConfigDefault
