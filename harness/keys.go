package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"

	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
	ethcrypto "github.com/ethereum/go-ethereum/crypto"
	"github.com/sisu-network/dheart/core"
	"github.com/sisu-network/dheart/worker"
	tsscommon "github.com/sisu-network/tss-lib/common"
	"github.com/sisu-network/tss-lib/crypto"
	"github.com/sisu-network/tss-lib/crypto/paillier"
	"github.com/sisu-network/tss-lib/crypto/vss"
	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
	ecsigning "github.com/sisu-network/tss-lib/ecdsa/signing"
	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
	"github.com/sisu-network/tss-lib/tss"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func randBytes(rng *rand.Rand, n int) []byte {
	bz := make([]byte, n)
	rng.Read(bz)
	return bz
}

func randSecp(rng *rand.Rand) ctypes.PrivKey {
	return secp256k1.GenPrivKeyFromSecret(randBytes(rng, 32))
}

func randEd(rng *rand.Rand) ctypes.PrivKey {
	return ed25519.GenPrivKeyFromSecret(randBytes(rng, 32))
}

// Member is the identity of one node.
type Member struct {
	Idx  int
	Priv ctypes.PrivKey
	Node *core.Node
	Id   string
	Pid  *tss.PartyID
	Pre  *eckeygen.LocalPreParams
}

// makeMembers creates n identities, sorted like their parties.
func makeMembers(rng *rand.Rand, n int, withPre bool) []*Member {
	ms := make([]*Member, n)
	for i := range ms {
		priv := randSecp(rng)
		node := core.NewNode(priv.PubKey())
		ms[i] = &Member{Priv: priv, Node: node, Id: node.PeerId.String(), Pid: node.PartyId}
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].Pid.KeyInt().Cmp(ms[j].Pid.KeyInt()) < 0 })
	off := 0
	if n < 15 {
		off = rng.Intn(15 - n)
	}
	for i, m := range ms {
		m.Idx = i
		if withPre {
			m.Pre = worker.LoadEcPreparams(off + i)
		}
	}
	return ms
}

func pidsOf(ms []*Member) tss.SortedPartyIDs {
	pids := make([]*tss.PartyID, len(ms))
	for i, m := range ms {
		pids[i] = tss.NewPartyID(m.Id, "", m.Pid.KeyInt())
	}
	return tss.SortPartyIDs(pids)
}

func keysOf(ms []*Member) []*big.Int {
	ks := make([]*big.Int, len(ms))
	for i, m := range ms {
		ks[i] = m.Pid.KeyInt()
	}
	return ks
}

// dealEc is a trusted dealer of ecdsa shares of a random key with the given threshold.
func dealEc(rng *rand.Rand, ms []*Member, threshold int) []*eckeygen.LocalPartySaveData {
	res, _ := dealEcSecret(rng, ms, threshold)
	return res
}

func dealEcSecret(rng *rand.Rand, ms []*Member, threshold int) ([]*eckeygen.LocalPartySaveData, *big.Int) {
	if threshold < 1 {
		threshold = 1
	}
	ec := tss.EC(tss.EcdsaScheme)
	secret := new(big.Int).Rand(rng, ec.Params().N)
	ks := keysOf(ms)
	_, shares, err := vss.Create(tss.EcdsaScheme, threshold, secret, ks)
	must(err)
	n := len(ms)
	pub := crypto.ScalarBaseMult(ec, secret)
	bigX := make([]*crypto.ECPoint, n)
	nt, h1, h2 := make([]*big.Int, n), make([]*big.Int, n), make([]*big.Int, n)
	pks := make([]*paillier.PublicKey, n)
	for i := range ms {
		bigX[i] = crypto.ScalarBaseMult(ec, shares[i].Share)
		nt[i], h1[i], h2[i] = ms[i].Pre.NTildei, ms[i].Pre.H1i, ms[i].Pre.H2i
		pks[i] = &ms[i].Pre.PaillierSK.PublicKey
	}
	res := make([]*eckeygen.LocalPartySaveData, n)
	for i := range ms {
		res[i] = &eckeygen.LocalPartySaveData{
			LocalPreParams: *ms[i].Pre,
			LocalSecrets:   eckeygen.LocalSecrets{Xi: shares[i].Share, ShareID: ks[i]},
			Ks:             ks, NTildej: nt, H1j: h1, H2j: h2, BigXj: bigX, PaillierPKs: pks, ECDSAPub: pub,
		}
	}
	return res, secret
}

// dealEd is a trusted dealer of eddsa shares.
func dealEd(rng *rand.Rand, ms []*Member, threshold int) []*edkeygen.LocalPartySaveData {
	if threshold < 1 {
		threshold = 1
	}
	ec := tss.EC(tss.EddsaScheme)
	secret := new(big.Int).Rand(rng, ec.Params().N)
	ks := keysOf(ms)
	_, shares, err := vss.Create(tss.EddsaScheme, threshold, secret, ks)
	must(err)
	n := len(ms)
	pub := crypto.ScalarBaseMult(ec, secret)
	bigX := make([]*crypto.ECPoint, n)
	for i := range ms {
		bigX[i] = crypto.ScalarBaseMult(ec, shares[i].Share)
	}
	res := make([]*edkeygen.LocalPartySaveData, n)
	for i := range ms {
		res[i] = &edkeygen.LocalPartySaveData{
			LocalSecrets: edkeygen.LocalSecrets{Xi: shares[i].Share, ShareID: ks[i]},
			Ks:           ks, BigXj: bigX, EDDSAPub: pub,
		}
	}
	return res
}

// forgePresign makes presign data as a trusted dealer who knows the key: k is the nonce. It returns
// the data of each member of the committee.
func forgePresign(rng *rand.Rand, ms []*Member, committee []int, secret, k *big.Int) []*ecsigning.SignatureData_OneRoundData {
	ec := tss.EC(tss.EcdsaScheme)
	n := ec.Params().N
	mod := func(x *big.Int) *big.Int { return x.Mod(x, n) }
	point := func(x, y *big.Int) *crypto.ECPoint { return crypto.NewECPointNoCurveCheck(ec, x, y) }
	bigR := point(ethcrypto.S256().ScalarBaseMult(new(big.Int).ModInverse(k, n).Bytes()))
	times := func(x *big.Int) *tsscommon.ECPoint {
		return point(ethcrypto.S256().ScalarMult(bigR.X(), bigR.Y(), pad32(x))).ToProtobufPoint()
	}
	sigma := mod(new(big.Int).Mul(k, secret))
	ks, sigmas := split(rng, k, len(committee), n), split(rng, sigma, len(committee), n)
	rBar, sj := map[string]*tsscommon.ECPoint{}, map[string]*tsscommon.ECPoint{}
	for i, c := range committee {
		rBar[ms[c].Id] = times(ks[i])
		sj[ms[c].Id] = times(sigmas[i])
	}
	res := make([]*ecsigning.SignatureData_OneRoundData, len(committee))
	for i, c := range committee {
		res[i] = &ecsigning.SignatureData_OneRoundData{
			T: int32(len(committee) - 1), KI: ks[i].Bytes(), RSigmaI: mod(new(big.Int).Mul(bigR.X(), sigmas[i])).Bytes(),
			BigR: bigR.ToProtobufPoint(), BigRBarJ: rBar, BigSJ: sj, PartyId: ms[c].Id,
		}
	}
	return res
}

func split(rng *rand.Rand, x *big.Int, parts int, n *big.Int) []*big.Int {
	res := make([]*big.Int, parts)
	rest := new(big.Int).Set(x)
	for i := 1; i < parts; i++ {
		res[i] = new(big.Int).Rand(rng, n)
		rest.Sub(rest, res[i])
	}
	res[0] = rest.Mod(rest, n)
	return res
}

// nonceWithZeros looks for a nonce whose point has a first coordinate with leading zero bytes.
func nonceWithZeros(rng *rand.Rand, zeros int) *big.Int {
	ec := tss.EC(tss.EcdsaScheme)
	for {
		k := new(big.Int).Rand(rng, ec.Params().N)
		if k.Sign() == 0 {
			continue
		}
		x, _ := ethcrypto.S256().ScalarBaseMult(new(big.Int).ModInverse(k, ec.Params().N).Bytes())
		if len(x.Bytes()) <= 32-zeros {
			return k
		}
	}
}

// messageForS returns the message for which a signature with the nonce k has the given s.
func messageForS(secret, k, s *big.Int) []byte {
	ec := tss.EC(tss.EcdsaScheme)
	n := ec.Params().N
	r, _ := ethcrypto.S256().ScalarBaseMult(new(big.Int).ModInverse(k, n).Bytes())
	m := new(big.Int).Mul(s, new(big.Int).ModInverse(k, n))
	m.Sub(m, new(big.Int).Mul(r, secret))
	return pad32(m.Mod(m, n))
}

// dealPresigns runs the presign rounds of tss-lib in this process, count times, for the members of
// the committee. The result is indexed by [member of the committee][presign].
func dealPresigns(ms []*Member, keys []*eckeygen.LocalPartySaveData, committee []int, threshold, count int) [][]*ecsigning.SignatureData_OneRoundData {
	sub := make([]*Member, len(committee))
	for i, c := range committee {
		sub[i] = ms[c]
	}
	res := make([][]*ecsigning.SignatureData_OneRoundData, len(sub))
	for i := range res {
		res[i] = make([]*ecsigning.SignatureData_OneRoundData, count)
	}
	for k := 0; k < count; k++ {
		pids := pidsOf(sub)
		ctx := tss.NewPeerContext(pids)
		out := make(chan tss.Message, 1000)
		type ended struct {
			i    int
			data *ecsigning.SignatureData
		}
		end := make(chan ended, len(sub))
		parties := make([]tss.Party, len(sub))
		for i := range sub {
			e := make(chan *ecsigning.SignatureData, 1)
			params := tss.NewParameters(ctx, pids[i], len(pids), threshold)
			parties[i] = ecsigning.NewLocalParty(nil, params, *keys[sub[i].Idx], nil, out, e)
			go func(i int) { end <- ended{i, <-e} }(i)
		}
		for i := range parties {
			go func(i int) {
				if err := parties[i].Start(); err != nil {
					panic(err)
				}
			}(i)
		}
		for done := 0; done < len(sub); {
			select {
			case m := <-out:
				bz, _, err := m.WireBytes()
				must(err)
				for i := range parties {
					if pids[i].Id == m.GetFrom().Id {
						continue
					}
					if to := m.GetTo(); to != nil && to[0].Id != pids[i].Id {
						continue
					}
					parsed, err := tss.ParseWireMessage(bz, m.GetFrom(), m.IsBroadcast())
					must(err)
					go func(i int) {
						if _, err := parties[i].Update(parsed); err != nil {
							panic(fmt.Sprint("presign: ", err))
						}
					}(i)
				}
			case e := <-end:
				res[e.i][k] = e.data.OneRoundData
				done++
			}
		}
	}
	return res
}
