package p2p

import "context"

// VerifStore gives the checks the peer list of a node.
type VerifStore struct{ ps *peerStore }

func VerifNewStore() VerifStore               { return VerifStore{NewPeerStore()} }
func VerifStoreOf(n *Node) VerifStore         { return VerifStore{n.ps} }
func (s VerifStore) ToWhite(p *Peer) error    { return s.ps.toWhite(p) }
func (s VerifStore) ToGrey(p *Peer) error     { return s.ps.toGrey(p) }
func (s VerifStore) Entries() []PeerEntry     { return s.ps.toPeerEntries() }
func VerifStart(n *Node, ctx context.Context) { n.context = ctx }
func VerifSyncWithAddr(n *Node, addr string)  { n.syncWithAddr(addr) }
