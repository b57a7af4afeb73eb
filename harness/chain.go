package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/big"
	"net"
	"net/http"
	"path/filepath"
	"sync"
	"time"

	ethereum "github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/accounts/abi/bind/backends"
	ethkeystore "github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	ethcore "github.com/ethereum/go-ethereum/core"
	"github.com/ethereum/go-ethereum/core/types"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/iden3/go-circom-prover-verifier/parsers"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-circom-prover-verifier/verifier"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	localchain "github.com/iden3/go-iden3-core/components/idenpubonchain/local"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/eth/contracts"
	mt "github.com/iden3/go-iden3-core/merkletree"
)

// The client of the identity states against the real contract: its code runs
// in an EVM behind a JSON-RPC server that can fail in many ways.  The zk
// verifier contract is replaced by one that knows which calls are right.

// approver: 32 bytes of calldata approve the call with that hash; any other
// call returns whether it was approved.
var approver = common.FromHex("36602014601a573660006000373660002054600052602060" + "00f35b600160003555" + "00")

type ethNode struct {
	url   string
	mu    sync.Mutex
	sim   *backends.SimulatedBackend
	key   *ecdsa.PrivateKey // of the approver's user
	boss  common.Address
	auto  bool // mine every transaction at once
	fault string
	how   string
	fired bool
	sent  []*types.Transaction
	calls int
	odd   string
}

var (
	theNode  *ethNode
	nodeOnce sync.Once
)

func getNode() *ethNode {
	nodeOnce.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		theNode = &ethNode{url: "http://" + l.Addr().String()}
		go http.Serve(l, theNode) //nolint:errcheck
	})
	return theNode
}

type rpcMsg struct {
	ID     json.RawMessage   `json:"id"`
	Method string            `json:"method"`
	Params []json.RawMessage `json:"params"`
}

func (n *ethNode) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	n.mu.Lock()
	defer n.mu.Unlock()
	b, err := ioutil.ReadAll(r.Body)
	if err != nil {
		return
	}
	var m rpcMsg
	if err := json.Unmarshal(b, &m); err != nil {
		n.odd = "the node was sent " + string(b)
		w.WriteHeader(400)
		return
	}
	n.calls++
	what := map[string]string{"eth_call": "call", "eth_getTransactionReceipt": "receipt", "eth_getBlockByNumber": "header", "eth_gasPrice": "gas",
		"eth_getTransactionCount": "nonce", "eth_sendRawTransaction": "send", "eth_getBalance": "balance", "eth_blockNumber": "header"}[m.Method]
	fault := ""
	switch {
	case n.fault == "":
	case n.fault == what, what == "send" && n.fault == "after":
		fault = n.how
	case what == "send" && n.fault == "before":
		fault = n.how
	case what == "receipt" && n.fault == "unmined":
		fault = "unmined"
	}
	var res interface{}
	var rerr error
	if fault == "" || n.fault == "after" || fault == "short" || fault == "unmined" || fault == "cut" && n.fault != "before" {
		res, rerr = n.answer(m)
	}
	if fault != "" {
		n.fault, n.fired = "", true
	}
	reply := func(v interface{}) []byte {
		b, err := json.Marshal(M{"jsonrpc": "2.0", "id": m.ID, "result": v})
		must(err)
		return b
	}
	w.Header().Set("Content-Type", "application/json")
	switch fault {
	case "":
		if rerr != nil {
			b, err := json.Marshal(M{"jsonrpc": "2.0", "id": m.ID, "error": M{"code": -32000, "message": rerr.Error()}})
			must(err)
			w.Write(b) //nolint:errcheck
			return
		}
		w.Write(reply(res)) //nolint:errcheck
	case "500":
		w.WriteHeader(500)
		w.Write([]byte("internal error")) //nolint:errcheck
	case "close":
		hj, _, err := w.(http.Hijacker).Hijack()
		must(err)
		hj.Close()
	case "cut":
		b := reply(res)
		w.Header().Set("Content-Length", fmt.Sprint(len(b)))
		w.Write(b[:len(b)/2]) //nolint:errcheck
	case "rpcerr":
		fmt.Fprintf(w, `{"jsonrpc":"2.0","id":%s,"error":{"code":-32005,"message":"limit exceeded"}}`, m.ID)
	case "html":
		w.Header().Set("Content-Type", "text/html")
		w.Write([]byte("<html><body>Bad gateway</body></html>")) //nolint:errcheck
	case "null":
		w.Write(reply(nil)) //nolint:errcheck
	case "empty":
		w.Write(reply("0x")) //nolint:errcheck
	case "short":
		s, _ := res.(hexutil.Bytes)
		w.Write(reply(hexutil.Bytes(s[:len(s)*2/3]))) //nolint:errcheck
	case "unmined":
		// as some nodes answer for a transaction they know but did not put in a block
		b := reply(res)
		var o M
		must(json.Unmarshal(b, &o))
		if rc, ok := o["result"].(M); ok {
			rc["blockNumber"], rc["blockHash"] = nil, nil
		} else {
			var h string
			must(json.Unmarshal(m.Params[0], &h))
			o["result"] = M{"transactionHash": h, "transactionIndex": "0x0", "blockNumber": nil, "blockHash": nil, "status": "0x1", "cumulativeGasUsed": "0x1",
				"gasUsed": "0x1", "logs": []int{}, "contractAddress": nil, "logsBloom": "0x" + hex.EncodeToString(make([]byte, 256))}
		}
		b, err = json.Marshal(o)
		must(err)
		w.Write(b) //nolint:errcheck
	default:
		internal("unknown fault %s", fault)
	}
}

func (n *ethNode) answer(m rpcMsg) (interface{}, error) {
	ctx := context.Background()
	param := func(i int, v interface{}) {
		if i >= len(m.Params) {
			internal("the node lacks parameter %d of %s", i, m.Method)
		}
		if err := json.Unmarshal(m.Params[i], v); err != nil {
			n.odd = fmt.Sprintf("bad parameter %s of %s", m.Params[i], m.Method)
		}
	}
	var tag string
	var addr common.Address
	switch m.Method {
	case "eth_gasPrice":
		return (*hexutil.Big)(big.NewInt(2000)), nil
	case "eth_getTransactionCount":
		param(0, &addr)
		param(1, &tag)
		if tag == "pending" {
			x, err := n.sim.PendingNonceAt(ctx, addr)
			return hexutil.Uint64(x), err
		}
		x, err := n.sim.NonceAt(ctx, addr, nil)
		return hexutil.Uint64(x), err
	case "eth_getBalance":
		param(0, &addr)
		x, err := n.sim.BalanceAt(ctx, addr, nil)
		return (*hexutil.Big)(x), err
	case "eth_getCode":
		param(0, &addr)
		param(1, &tag)
		var x []byte
		var err error
		if tag == "pending" {
			x, err = n.sim.PendingCodeAt(ctx, addr)
		} else {
			x, err = n.sim.CodeAt(ctx, addr, nil)
		}
		return hexutil.Bytes(x), err
	case "eth_call":
		var c struct {
			From, To    *common.Address
			Data, Input hexutil.Bytes
		}
		param(0, &c)
		param(1, &tag)
		if c.Data == nil {
			c.Data = c.Input
		}
		msg := ethereum.CallMsg{To: c.To, Data: c.Data}
		var x []byte
		var err error
		if tag == "pending" {
			x, err = n.sim.PendingCallContract(ctx, msg)
		} else if tag == "latest" {
			x, err = n.sim.CallContract(ctx, msg, nil)
		} else {
			return nil, errors.New("missing trie node")
		}
		return hexutil.Bytes(x), err
	case "eth_blockNumber":
		h, err := n.sim.HeaderByNumber(ctx, nil)
		if err != nil {
			return nil, err
		}
		return (*hexutil.Big)(h.Number), nil
	case "eth_getBlockByNumber":
		param(0, &tag)
		var num *big.Int
		if tag == "pending" {
			h, err := n.sim.HeaderByNumber(ctx, nil)
			if err != nil {
				return nil, err
			}
			h = types.CopyHeader(h)
			h.Number = new(big.Int).Add(h.Number, big.NewInt(1))
			return h, nil
		}
		if tag != "latest" {
			x, err := hexutil.DecodeBig(tag)
			if err != nil {
				return nil, err
			}
			num = x
		}
		h, err := n.sim.HeaderByNumber(ctx, num)
		if h == nil || err != nil {
			return nil, err
		}
		return h, nil
	case "eth_getTransactionReceipt":
		var h common.Hash
		param(0, &h)
		rc, err := n.sim.TransactionReceipt(ctx, h)
		if rc == nil || err != nil {
			return nil, err
		}
		return rc, nil
	case "eth_sendRawTransaction":
		var raw hexutil.Bytes
		param(0, &raw)
		tx := new(types.Transaction)
		if err := rlp.DecodeBytes(raw, tx); err != nil {
			return nil, err
		}
		return n.take(tx)
	case "eth_chainId":
		return "0x1", nil
	case "net_version":
		return "1", nil
	}
	n.odd = "the node was asked for " + m.Method
	return nil, errors.New("the method " + m.Method + " does not exist/is not available")
}

func (n *ethNode) take(tx *types.Transaction) (h interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	must(n.sim.SendTransaction(context.Background(), tx))
	n.sent = append(n.sent, tx)
	if n.auto {
		n.sim.Commit()
	}
	return tx.Hash(), nil
}

// approve makes the stand-in verifier say yes to a call.
func (n *ethNode) approve(at common.Address, call []byte) {
	n.mu.Lock()
	defer n.mu.Unlock()
	nonce, err := n.sim.PendingNonceAt(context.Background(), n.boss)
	must(err)
	h := ethcrypto.Keccak256(call)
	tx, err := types.SignTx(types.NewTransaction(nonce, at, big.NewInt(0), 100000, big.NewInt(1), h), types.HomesteadSigner{}, n.key)
	must(err)
	must(n.sim.SendTransaction(context.Background(), tx))
}

/********************************** replay **********************************/

type chainTx struct {
	tx   *types.Transaction
	data []byte // what its payload has to be
	to   common.Address
}

type chainReplay struct {
	c      *Ctx
	local  bool
	n      *ethNode
	client *eth.Client
	nobody *eth.Client
	lazy   *ethclient.Client
	at     []idenpubonchain.IdenPubOnChainer // per contract
	addr   []common.Address
	veri   common.Address
	txs    []chainTx
	base   uint64
	time0  int64
	acc    accounts.Account
	loc    *localchain.IdenPubOnChain
	now    uint64 // what the local chain is told
	nowTs  int64
	blk    int
	ts     int64
	vk     *zktypes.Vk
	ids    []core.ID
	spare  int
}

var (
	chainKs  *ethkeystore.KeyStore
	chainAcc accounts.Account
)

func chainAccount(dir string) {
	if chainKs != nil {
		return
	}
	chainKs = ethkeystore.NewKeyStore(filepath.Join(dir, "ethks"), 2, 1)
	var err error
	chainAcc, err = chainKs.NewAccount("x")
	must(err)
	must(chainKs.Unlock(chainAcc, "x"))
}

func init() {
	modules["chain"] = func(c *Ctx) Replayer {
		r := &chainReplay{c: c, local: c.fl == "local"}
		for i := 0; i < 8; i++ {
			var g [27]byte
			h := ethcrypto.Keccak256([]byte(fmt.Sprintf("id %d %d %d", c.seed, c.beh, i)))
			copy(g[:], h)
			if i == 1 {
				for j := 0; j < 27; j++ {
					g[j] = 0
				}
				g[26] = byte(1 + c.beh%255)
			}
			id := core.NewID(core.TypeBJP0, g)
			r.ids = append(r.ids, id)
		}
		vk, err := parsers.ParseVk([]byte(`{"kind":"vk","circuit":"idenState","nPublic":3}`))
		must(err)
		r.vk = vk
		if r.local {
			r.now, r.nowTs = 1000, 1500000000
			r.base, r.time0 = 1000, 1500000000
			r.loc = localchain.New(func() time.Time { return time.Unix(r.nowTs, int64(c.beh)*1000003%1e9) }, func() uint64 { return r.now }, vk)
			r.at = []idenpubonchain.IdenPubOnChainer{r.loc}
			return r
		}
		chainAccount(c.dir)
		n := getNode()
		r.n = n
		n.mu.Lock()
		n.key, err = ethcrypto.ToECDSA(ethcrypto.Keccak256([]byte("boss")))
		must(err)
		n.boss = ethcrypto.PubkeyToAddress(n.key.PublicKey)
		rich := new(big.Int).Lsh(big.NewInt(1), 200)
		r.veri = common.HexToAddress("0x00000000000000000000000000000000000abcde")
		n.sim = backends.NewSimulatedBackend(ethcore.GenesisAlloc{n.boss: {Balance: rich}, chainAcc.Address: {Balance: rich}, r.veri: {Balance: big.NewInt(0), Code: approver}}, 1<<40)
		n.fault, n.sent, n.odd, n.auto = "", nil, "", true
		n.mu.Unlock()
		r.acc = chainAcc
		ec, err := ethclient.Dial(n.url)
		must(err)
		r.lazy = ec
		acc := chainAcc
		r.client = eth.NewClient(ec, &acc, chainKs)
		r.nobody = eth.NewClient(ec, nil, nil)
		for i := 0; i < 2; i++ {
			var res idenpubonchain.DeployStateResult
			guard(c, "chain.panic", func() {
				res, err = idenpubonchain.DeployState(r.client, &idenpubonchain.StateDepsAddresses{Verifier: &r.veri})
			})
			c.check(err == nil, "chain.deploy", "deployment of the contract: %v", err)
			code, err := n.sim.CodeAt(context.Background(), res.State.Address, nil)
			must(err)
			c.check(len(code) > 0, "chain.deploy", "no contract at the address of the deployment")
			c.check(res.Verifier.Address == r.veri, "chain.deploy", "another verifier is used than the one given")
			r.addr = append(r.addr, res.State.Address)
			r.at = append(r.at, idenpubonchain.New(r.client, idenpubonchain.ContractAddresses{IdenStates: res.State.Address}))
		}
		n.mu.Lock()
		n.auto, n.sent = false, nil
		h, err := n.sim.HeaderByNumber(context.Background(), nil)
		must(err)
		r.base, r.time0 = h.Number.Uint64(), int64(h.Time)
		n.mu.Unlock()
		return r
	}
}

func (r *chainReplay) Close() {
	if r.local {
		return
	}
	r.lazy.Close()
	r.n.mu.Lock()
	r.n.sim.Close() //nolint:errcheck
	r.n.mu.Unlock()
}

func (r *chainReplay) state(i int) *mt.Hash {
	var x *big.Int
	switch i {
	case 0:
		x = big.NewInt(0)
	case 1:
		x = big.NewInt(int64(1 + r.c.beh%3*255))
	case 2:
		x = new(big.Int).Sub(zktypes.R, big.NewInt(int64(1+r.c.beh%5)))
	default:
		x = new(big.Int).Mod(new(big.Int).SetBytes(ethcrypto.Keccak256([]byte(fmt.Sprintf("state %d %d %d", r.c.seed, r.c.beh, i)))), zktypes.R)
		if i == 3 {
			x.Rsh(x, 9)
		}
		if i == 4 {
			x.Lsh(x.Rsh(x, 32), 24)
		}
	}
	return mt.NewHashFromBigInt(x)
}

func idToBig(id core.ID) *big.Int {
	var b [31]byte
	for i := range id {
		b[30-i] = id[i]
	}
	return new(big.Int).SetBytes(b[:])
}
func word(x *big.Int) []byte { return common.LeftPadBytes(x.Bytes(), 32) }
func (r *chainReplay) stateBig(i int) *big.Int {
	h := r.state(i)
	var b [32]byte
	for j := range h {
		b[31-j] = h[j]
	}
	return new(big.Int).SetBytes(b[:])
}

// proofFor makes the proof of a transition, or one that is for none.
func (r *chainReplay) proofFor(pf []interface{}) (*zktypes.Proof, []*big.Int) {
	if len(pf) == 0 {
		r.spare++
		p := verifier.Ideal(r.vk.Alpha, []*big.Int{big.NewInt(int64(r.spare))})
		return p, nil
	}
	pub := []*big.Int{idToBig(r.ids[num(pf[0])-1]), r.stateBig(num(pf[1])), r.stateBig(num(pf[2]))}
	return verifier.Ideal(r.vk.Alpha, pub), pub
}

// proofWords is the encoding of EIP-197.
func proofWords(p *zktypes.Proof) []byte {
	return append(append(append([]byte{}, p.A.Marshal()...), p.B.Marshal()...), p.C.Marshal()...)
}

func selector(sig string) []byte { return ethcrypto.Keccak256([]byte(sig))[:4] }

func isNotFound(err error) bool {
	for _, e := range []error{idenpubonchain.ErrIdenNotOnChain, idenpubonchain.ErrIdenNotOnChainOrBlockTooNew, idenpubonchain.ErrIdenNotOnChainOrTimeTooNew,
		idenpubonchain.ErrIdenByBlockNotFound, idenpubonchain.ErrIdenByTimeNotFound} {
		if errors.Is(err, e) {
			return true
		}
	}
	return false
}

func (r *chainReplay) inject(fault, how string) {
	if r.local {
		return
	}
	r.n.mu.Lock()
	r.n.fault, r.n.how, r.n.fired = fault, how, false
	r.n.mu.Unlock()
}

// reached tells whether the fault happened.
func (r *chainReplay) reached() bool {
	r.n.mu.Lock()
	defer r.n.mu.Unlock()
	f := r.n.fired
	r.n.fault = ""
	if !f {
		r.c.bump("fault_not_reached")
	}
	return f
}

func (r *chainReplay) Step(c *Ctx, s M) {
	switch str(s["op"]) {
	case "mine":
		r.mine(s)
	case "drop":
		r.n.mu.Lock()
		r.n.sim.Rollback()
		r.n.mu.Unlock()
	case "submit":
		r.submit(s)
	case "query":
		r.query(s)
	case "confirm":
		r.confirm(s)
	case "misc":
		r.misc(s)
	default:
		internal("unknown step %v", s)
	}
	if !r.local {
		r.n.mu.Lock()
		odd := r.n.odd
		r.n.mu.Unlock()
		c.check(odd == "", "chain.protocol", "%s", odd)
	}
}

func (r *chainReplay) mine(s M) {
	r.blk, r.ts = num(s["blk"]), int64(num(s["ts"]))
	if r.local {
		r.loc.Sync()
		r.now, r.nowTs = r.base+uint64(r.blk), r.time0+r.ts
	} else {
		r.n.mu.Lock()
		if g := num(s["gap"]); g > 0 {
			must(r.n.sim.AdjustTime(time.Duration(g) * time.Second))
		}
		r.n.sim.Commit()
		h, err := r.n.sim.HeaderByNumber(context.Background(), nil)
		must(err)
		r.n.mu.Unlock()
		if h.Number.Uint64() != r.base+uint64(r.blk) || int64(h.Time) != r.time0+r.ts {
			internal("block %v at %v, expected %v at %v", h.Number, h.Time, r.base+uint64(r.blk), r.time0+r.ts)
		}
		// the specification of the contract is the contract
		for i, st := range arr(s["st"]) {
			rc, err := r.n.sim.TransactionReceipt(context.Background(), r.txs[i].tx.Hash())
			must(err)
			got := "none"
			if rc != nil {
				got = map[uint64]string{0: "failed", 1: "ok"}[rc.Status]
			}
			want := str(st)
			if want == "gone" || want == "pool" {
				want = "none"
			}
			if r.again(i) {
				continue
			}
			r.c.check(got == want, "chain.contract", "transaction %d of the contract: %s, expected %s", i+1, got, want)
		}
	}
	// every record, by every way of asking
	for ct, l := range arr(s["hist"]) {
		for i, recs := range arr(l) {
			rs := arr(recs)
			if len(rs) == 0 {
				continue
			}
			id := r.ids[i]
			last := obj(rs[len(rs)-1])
			d, err := r.at[ct].GetState(&id)
			r.record("the current state", d, err, last)
			pick := obj(rs[(r.blk+i)%len(rs)])
			if num(pick["b"]) < r.blk || r.local {
				d, err = r.at[ct].GetStateByBlock(&id, r.base+uint64(num(pick["b"])))
				r.record("the state at a block", d, err, pick)
				d, err = r.at[ct].GetStateByTime(&id, r.time0+int64(num(pick["ts"])))
				r.record("the state at a time", d, err, pick)
			}
		}
	}
}

func (r *chainReplay) record(what string, d *proof.IdenStateData, err error, want M) {
	r.c.check(err == nil, "chain.query", "%s: %v", what, err)
	r.c.check(d != nil && d.IdenState != nil, "chain.query", "%s: nothing", what)
	wb, wt, ws := r.base+uint64(num(want["b"])), r.time0+int64(num(want["ts"])), r.state(num(want["s"]))
	r.c.check(d.BlockN == wb && d.BlockTs == wt && bytes.Equal(d.IdenState[:], ws[:]), "chain.query",
		"%s: block %d time %d state %v, recorded were block %d time %d state %v", what, d.BlockN, d.BlockTs, d.IdenState.Hex(), wb, wt, ws.Hex())
	// the answer is the caller's
	d.IdenState[3] ^= 1
	d.BlockN, d.BlockTs = 1, 1
}

func (r *chainReplay) submit(s M) {
	ct := num(s["ct"]) - 1
	id, newS, old := r.ids[num(s["id"])-1], r.state(num(s["new"])), r.state(num(s["old"]))
	p, pub := r.proofFor(arr(s["pf"]))
	fault, kind := str(s["fault"]), str(s["kind"])
	want := r.ids[num(s["id"])-1]
	ip := r.at[ct]
	data := []byte{}
	if !r.local {
		if pub != nil {
			call := append(selector("verifyProof(uint256[2],uint256[2][2],uint256[2],uint256[3])"), proofWords(p)...)
			for _, x := range pub {
				call = append(call, word(x)...)
			}
			r.n.approve(r.veri, call)
		}
		if kind == "init" {
			data = append(selector("initState(uint256,uint256,uint256,uint256[2],uint256[2][2],uint256[2])"), word(r.stateBig(num(s["new"])))...)
			data = append(append(data, word(r.stateBig(num(s["old"])))...), word(idToBig(want))...)
		} else {
			data = append(selector("setState(uint256,uint256,uint256[2],uint256[2][2],uint256[2])"), word(r.stateBig(num(s["new"])))...)
			data = append(data, word(idToBig(want))...)
		}
		data = append(data, proofWords(p)...)
		if fault == "nobody" {
			ip = idenpubonchain.New(r.nobody, idenpubonchain.ContractAddresses{IdenStates: r.addr[ct]})
		} else if fault != "none" {
			r.inject(fault, str(s["how"]))
		}
	} else {
		r.now, r.nowTs = r.base+uint64(r.blk)+1, r.time0+r.ts+10
	}
	var tx *types.Transaction
	var err error
	if kind == "init" {
		tx, err = ip.InitState(&id, old, newS, p)
	} else {
		tx, err = ip.SetState(&id, newS, p)
	}
	takes, ok := s["takes"].(bool), s["ok"].(bool)
	if r.local {
		r.now, r.nowTs = r.base+uint64(r.blk), r.time0+r.ts
		// the caller may use its variables for something else
		id[2] ^= 1
		newS[5] ^= 1
		old[5] ^= 1
		if !takes {
			r.c.check(err != nil, "chain.accepts", "%s accepted (state before: %v, proof for %v)", kind, s["was"], s["pf"])
			r.c.bump("refused")
			return
		}
	}
	if fault == "nobody" {
		r.c.check(errors.Is(err, eth.ErrAccountNil), "chain.submit", "submission without an account: %v", err)
		r.c.check(len(r.n.sent) == 0, "chain.submit", "a transaction was sent without an account")
		r.c.bump("no_account")
		return
	}
	if fault != "none" && !r.reached() {
		panic(abortBehaviour{})
	}
	if ok {
		r.c.check(err == nil && tx != nil, "chain.submit", "submission: %v", err)
	} else {
		r.c.check(err != nil, "chain.transport", "a submission that failed at %s (%v) is reported as sent", fault, s["how"])
		r.c.check(!isNotFound(err), "chain.transport", "a failed submission is reported as absence: %v", err)
		r.c.bump("submission_failed_" + fault)
	}
	if r.local {
		r.txs = append(r.txs, chainTx{tx: tx})
		return
	}
	r.n.mu.Lock()
	sent := r.n.sent
	r.n.sent = nil
	r.n.mu.Unlock()
	if !takes {
		r.c.check(len(sent) == 0, "chain.submit", "%d transactions reached the node", len(sent))
		return
	}
	r.c.check(len(sent) == 1, "chain.submit", "%d transactions reached the node instead of one", len(sent))
	got := sent[0]
	from, e := types.Sender(types.NewEIP155Signer(big.NewInt(1337)), got)
	if e != nil {
		from, e = types.Sender(types.HomesteadSigner{}, got)
	}
	r.c.check(e == nil && from == r.acc.Address, "chain.submit", "the transaction is not signed by the account: %v", e)
	r.c.check(got.To() != nil && *got.To() == r.addr[ct], "chain.submit", "the transaction is sent to %v", got.To())
	r.c.check(got.Value().Sign() == 0, "chain.submit", "the transaction carries %v wei", got.Value())
	r.c.check(bytes.Equal(got.Data(), data), "chain.submit", "the transaction carries\n%x instead of\n%x", got.Data(), data)
	if ok {
		r.c.check(tx.Hash() == got.Hash(), "chain.submit", "the transaction returned is not the one sent")
	}
	r.txs = append(r.txs, chainTx{tx: got, data: data, to: r.addr[ct]})
}

func (r *chainReplay) query(s M) {
	id := r.ids[num(s["id"])-1]
	ip := r.at[num(s["ct"])-1]
	k, want, fault := str(s["k"]), str(s["r"]), str(s["fault"])
	q := num(s["q"])
	if fault != "none" {
		r.inject("call", fault)
	}
	var d *proof.IdenStateData
	var err error
	switch k {
	case "id":
		d, err = ip.GetState(&id)
	case "block":
		d, err = ip.GetStateByBlock(&id, r.base+uint64(q))
	case "time":
		d, err = ip.GetStateByTime(&id, r.time0+int64(q))
	case "cblock":
		d, err = ip.(*idenpubonchain.IdenPubOnChain).GetStateClosestToBlock(&id, r.base+uint64(q))
	case "ctime":
		d, err = ip.(*idenpubonchain.IdenPubOnChain).GetStateClosestToTime(&id, r.time0+int64(q))
	}
	if fault != "none" && r.reached() {
		r.c.check(err != nil, "chain.transport", "the node failed (%s), the answer is %+v", fault, d)
		r.c.check(!isNotFound(err), "chain.transport", "the node failed (%s), which is taken for absence: %v", fault, err)
		r.c.bump("query_failed_" + fault)
		return
	}
	if want == "hit" {
		r.record(k+" query", d, err, obj(s["rec"]))
		return
	}
	r.c.bump("query_" + want)
	r.c.check(err != nil, "chain.absent", "%s query for %d: %+v, expected %s", k, q, d, want)
	var e error
	if r.local {
		e = map[string]error{"absent": idenpubonchain.ErrIdenNotOnChain, "blockother": idenpubonchain.ErrIdenByBlockNotFound, "timeother": idenpubonchain.ErrIdenByTimeNotFound,
			"blockbefore": idenpubonchain.ErrIdenByBlockNotFound, "timebefore": idenpubonchain.ErrIdenByTimeNotFound}[map[bool]string{true: want, false: k + want}[want == "absent"]]
	} else {
		switch {
		case want == "future" || want == "before":
			// the contract refuses such a query, which does not mean that it knows nothing of the identity
			r.c.check(!errors.Is(err, idenpubonchain.ErrIdenNotOnChain) && (want == "before" ||
				!errors.Is(err, idenpubonchain.ErrIdenByBlockNotFound) && !errors.Is(err, idenpubonchain.ErrIdenByTimeNotFound)),
				"chain.absent", "%s query (%s): the contract refuses, the client says %v", k, want, err)
			return
		case k == "id":
			e = idenpubonchain.ErrIdenNotOnChain
		case want == "other" && k == "block":
			e = idenpubonchain.ErrIdenByBlockNotFound
		case want == "other" && k == "time":
			e = idenpubonchain.ErrIdenByTimeNotFound
		case k == "block" || k == "cblock":
			e = idenpubonchain.ErrIdenNotOnChainOrBlockTooNew
		default:
			e = idenpubonchain.ErrIdenNotOnChainOrTimeTooNew
		}
	}
	r.c.check(errors.Is(err, e), "chain.absent", "%s query for %d: %v, expected %v", k, q, err, e)
}

// again tells whether transaction i was forgotten by the node and then sent
// again, the very same one.
func (r *chainReplay) again(i int) bool {
	for _, t := range r.txs[i+1:] {
		if !r.local && t.tx.Hash() == r.txs[i].tx.Hash() {
			r.c.bump("sent_again")
			return true
		}
	}
	return false
}

func (r *chainReplay) confirm(s M) {
	t := r.txs[num(s["i"])-1]
	if r.again(num(s["i"]) - 1) {
		return
	}
	st, fault := str(s["st"]), str(s["fault"])
	if s["wait"].(bool) && fault == "none" {
		rc, err := r.client.WaitReceipt(t.tx)
		if st == "ok" {
			r.c.check(err == nil && rc != nil && rc.BlockNumber.Uint64() == r.base+uint64(num(s["b"])), "chain.receipt", "waiting for the receipt of a transaction in a block: %v", err)
		} else {
			r.c.check(errors.Is(err, eth.ErrReceiptStatusFailed), "chain.receipt", "waiting for the receipt of a failed transaction: %v", err)
		}
		r.c.bump("waited")
	}
	ip := r.at[0]
	if fault != "none" {
		r.inject(fault, str(s["how"]))
	}
	n, err := ip.TxConfirmBlocks(t.tx)
	if fault != "none" && r.reached() {
		r.c.check(err != nil, "chain.transport", "the node failed (%s %v), yet %v blocks confirm the transaction (%s)", fault, s["how"], n, st)
		if st != "failed" {
			r.c.check(!errors.Is(err, eth.ErrReceiptStatusFailed), "chain.transport", "the node failed (%s %v), which is taken for a failed transaction: %v", fault, s["how"], err)
		}
		r.c.bump("confirm_failed_" + fault)
		return
	}
	r.c.bump("confirm_" + st)
	switch st {
	case "ok":
		r.c.check(err == nil && n != nil, "chain.confirm", "confirmations of a transaction in a block: %v", err)
		r.c.check(n.Cmp(big.NewInt(int64(num(s["n"])))) == 0, "chain.confirm", "%v blocks confirm a transaction, expected %v", n, s["n"])
	case "failed":
		r.c.check(errors.Is(err, eth.ErrReceiptStatusFailed), "chain.confirm", "a failed transaction: %v blocks, %v", n, err)
	default:
		r.c.check(errors.Is(err, eth.ErrReceiptNotReceived), "chain.confirm", "a transaction that is in no block: %v blocks, %v", n, err)
	}
}

func (r *chainReplay) misc(s M) {
	fault := str(s["fault"])
	what := map[string]string{"block": "header", "balance": "balance", "unknown": "receipt", "nobody": "none"}[str(s["k"])]
	if what == "balance" && fault == "null" { // the library takes null for a number
		fault = "html"
	}
	if fault != "none" && what != "none" {
		r.inject(what, fault)
	}
	var err error
	switch str(s["k"]) {
	case "block":
		var b *big.Int
		b, err = r.client.CurrentBlock()
		if fault == "none" {
			r.c.check(err == nil && b.Uint64() == r.base+uint64(num(s["blk"])), "chain.block", "the current block: %v %v, expected %v", b, err, r.base+uint64(num(s["blk"])))
		}
	case "balance":
		var b *big.Int
		b, err = r.nobody.BalanceAt(r.acc.Address)
		if fault == "none" {
			w, e := r.n.sim.BalanceAt(context.Background(), r.acc.Address, nil)
			must(e)
			r.c.check(err == nil && b.Cmp(w) == 0, "chain.block", "the balance: %v %v", b, err)
		}
	case "unknown":
		r.spare++
		tx := types.NewTransaction(uint64(r.spare), common.Address{byte(r.spare)}, big.NewInt(0), 1, big.NewInt(1), nil)
		var n *big.Int
		n, err = r.at[1].TxConfirmBlocks(tx)
		r.c.check(errors.Is(err, eth.ErrReceiptNotReceived), "chain.confirm", "a transaction nobody sent: %v blocks, %v", n, err)
	case "nobody":
		called := false
		_, err = r.nobody.CallAuth(0, func(*ethclient.Client, *bind.TransactOpts) (*types.Transaction, error) {
			called = true
			return nil, nil
		})
		r.c.check(errors.Is(err, eth.ErrAccountNil) && !called, "chain.submit", "a call without an account: %v", err)
		// a client for an address without a contract
		id := r.ids[0]
		_, err = idenpubonchain.New(r.client, idenpubonchain.ContractAddresses{IdenStates: common.Address{9}}).GetState(&id)
		r.c.check(err != nil && !isNotFound(err), "chain.transport", "no contract at the address is taken for absence: %v", err)
		return
	}
	if fault != "none" && r.reached() {
		r.c.check(err != nil, "chain.transport", "%s: the node failed (%s), which goes unnoticed", s["k"], fault)
	}
	_ = contracts.StateABI
}
