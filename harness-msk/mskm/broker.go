package mskm

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/pbkdf2"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/url"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/aws/aws-sdk-go-v2/aws"
	"github.com/twmb/franz-go/pkg/kmsg"
)

// fleet is all brokers: an address leads to one that authenticates its clients as the kind of the address demands.
type fleet struct {
	mu      sync.Mutex
	kind    map[string]int
	creds   func() aws.Credentials // valid right now
	user    string
	pass    string
	served  map[string]int // address: requests answered for authenticated clients
	ids     map[string]bool
	refused []string // authentication attempts that failed
	dials   map[string]int
	ls      []net.Listener
	auths   int
	only    string // the address which can be reached
}

func (f *fleet) refuse(format string, a ...any) error {
	e := fmt.Errorf(format, a...)
	f.mu.Lock()
	f.refused = append(f.refused, e.Error())
	f.mu.Unlock()
	return e
}

func (f *fleet) dial(_ context.Context, _, addr string) (net.Conn, error) {
	f.mu.Lock()
	k, ok := f.kind[addr]
	f.dials[addr]++
	only := f.only
	f.mu.Unlock()
	if !ok {
		return nil, fmt.Errorf("no such host: %s", addr)
	}
	if addr != only {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
	}
	a, b := net.Pipe()
	go f.serve(b, addr, k, "")
	return a, nil
}

// listen opens a loopback port whose clients must present a certificate of the authority.
func (f *fleet) listen(k int) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	addr := l.Addr().String()
	f.mu.Lock()
	f.kind[addr] = k
	f.ls = append(f.ls, l)
	f.mu.Unlock()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			f.mu.Lock()
			f.dials[addr]++
			only := f.only
			f.mu.Unlock()
			if addr != only {
				c.Close()
				continue
			}
			go func() {
				t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{pki.server}, ClientCAs: pki.pool, ClientAuth: tls.RequestClientCert})
				t.SetDeadline(time.Now().Add(60 * time.Second))
				if err := t.Handshake(); err != nil {
					c.Close()
					return
				}
				name := ""
				if pc := t.ConnectionState().PeerCertificates; len(pc) > 0 {
					if _, err := pc[0].Verify(x509.VerifyOptions{Roots: pki.pool, KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}}); err == nil {
						name = pc[0].Subject.CommonName
					}
				}
				f.serve(t, addr, k, name)
			}()
		}
	}()
	return addr
}

func (f *fleet) close() {
	for _, l := range f.ls {
		l.Close()
	}
}

func (f *fleet) serve(c net.Conn, addr string, kind int, peer string) {
	defer c.Close()
	authed := false
	mech := ""
	var scram *scramServer
	switch kind {
	case kNone:
		authed = true
	case kTLS, kPubTLS:
		if authed = peer == "client"; !authed {
			f.refuse("%s: no client certificate (%q)", addr, peer)
			return
		}
	}
	for {
		var l [4]byte
		if _, err := io.ReadFull(c, l[:]); err != nil {
			return
		}
		n := binary.BigEndian.Uint32(l[:])
		if n > 1<<20 {
			return
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		key, ver := int16(binary.BigEndian.Uint16(b)), int16(binary.BigEndian.Uint16(b[2:]))
		rest := b[8:]
		id := ""
		if k := int16(binary.BigEndian.Uint16(rest)); k >= 0 {
			id, rest = string(rest[2:2+k]), rest[2+k:]
		} else {
			rest = rest[2:]
		}
		rq := kmsg.RequestForKey(key)
		if rq == nil {
			return
		}
		rq.SetVersion(ver)
		if rq.IsFlexible() { // no tags are sent by this client
			rest = rest[1:]
		}
		if err := rq.ReadFrom(rest); err != nil {
			return
		}
		rs := rq.ResponseKind()
		rs.SetVersion(ver)
		var last bool
		switch rq := rq.(type) {
		case *kmsg.ApiVersionsRequest:
			r := rs.(*kmsg.ApiVersionsResponse)
			if ver > 2 {
				ver = 0
				r.SetVersion(0)
				r.ErrorCode = 35
			}
			for _, k := range [][3]int16{{3, 0, 8}, {17, 1, 1}, {18, 0, 2}, {36, 0, 1}} {
				r.ApiKeys = append(r.ApiKeys, kmsg.ApiVersionsResponseApiKey{ApiKey: k[0], MinVersion: k[1], MaxVersion: k[2]})
			}
		case *kmsg.SASLHandshakeRequest:
			r := rs.(*kmsg.SASLHandshakeResponse)
			want := map[int]string{kScram: "SCRAM-SHA-512", kPubScram: "SCRAM-SHA-512", kIam: "AWS_MSK_IAM", kPubIam: "AWS_MSK_IAM"}[kind]
			mech = rq.Mechanism
			if want == "" || mech != want {
				r.ErrorCode, last = 33, true
				r.SupportedMechanisms = []string{want}
				f.refuse("%s: mechanism %q, want %q", addr, mech, want)
			}
		case *kmsg.SASLAuthenticateRequest:
			r := rs.(*kmsg.SASLAuthenticateResponse)
			var err error
			switch mech {
			case "SCRAM-SHA-512":
				if scram == nil {
					scram = &scramServer{user: f.user, pass: f.pass}
				}
				r.SASLAuthBytes, authed, err = scram.step(rq.SASLAuthBytes)
			case "AWS_MSK_IAM":
				if err = checkIam(rq.SASLAuthBytes, addr, f.creds()); err == nil {
					authed = true
					r.SASLAuthBytes = []byte(`{"version":"2020_10_22","request-id":"x"}`)
				}
			default:
				err = fmt.Errorf("no handshake")
			}
			if err != nil {
				m := err.Error()
				f.refuse("%s: %s", addr, m)
				r.ErrorCode, r.ErrorMessage, last = 58, &m, true
			}
			if authed {
				f.mu.Lock()
				f.auths++
				f.mu.Unlock()
			}
		case *kmsg.MetadataRequest:
			if !authed {
				f.refuse("%s: request without authentication", addr)
				return
			}
			f.mu.Lock()
			f.served[addr]++
			f.ids[id] = true
			f.mu.Unlock()
			r := rs.(*kmsg.MetadataResponse)
			h, p, _ := net.SplitHostPort(addr)
			var port int32
			fmt.Sscan(p, &port)
			r.Brokers = append(r.Brokers, kmsg.MetadataResponseBroker{NodeID: 1, Host: h, Port: port})
			r.ControllerID = 1
			cid := "c"
			r.ClusterID = &cid
		default:
			return
		}
		out := append([]byte{0, 0, 0, 0}, b[4:8]...)
		if rs.IsFlexible() && key != 18 {
			out = append(out, 0)
		}
		out = rs.AppendTo(out)
		binary.BigEndian.PutUint32(out, uint32(len(out)-4))
		if _, err := c.Write(out); err != nil || last {
			return
		}
	}
}

// scramServer is the server side of RFC 5802 with SHA-512.
type scramServer struct {
	user, pass  string
	first, serv string
	nonce       string
	salt        []byte
	stage       int
}

func attrs(s string) map[byte]string {
	m := map[byte]string{}
	for _, p := range strings.Split(s, ",") {
		if len(p) > 1 && p[1] == '=' {
			m[p[0]] = p[2:]
		}
	}
	return m
}

func mac(key []byte, s string) []byte {
	h := hmac.New(sha512.New, key)
	h.Write([]byte(s))
	return h.Sum(nil)
}

func (s *scramServer) step(msg []byte) ([]byte, bool, error) {
	m := string(msg)
	s.stage++
	switch s.stage {
	case 1:
		if !strings.HasPrefix(m, "n,,") {
			return nil, false, fmt.Errorf("gs2 header of %q", m)
		}
		s.first = m[3:]
		a := attrs(s.first)
		if u := strings.NewReplacer("=2C", ",", "=3D", "=").Replace(a['n']); u != s.user {
			return nil, false, fmt.Errorf("unknown user %q", u)
		}
		s.salt = make([]byte, 16)
		rand.Read(s.salt)
		s.nonce = a['r'] + hex.EncodeToString(s.salt[:4])
		s.serv = fmt.Sprintf("r=%s,s=%s,i=%d", s.nonce, base64.StdEncoding.EncodeToString(s.salt), 4096)
		return []byte(s.serv), false, nil
	case 2:
		a := attrs(m)
		if a['r'] != s.nonce {
			return nil, false, fmt.Errorf("nonce")
		}
		i := strings.LastIndex(m, ",p=")
		if i < 0 {
			return nil, false, fmt.Errorf("no proof")
		}
		salted, _ := pbkdf2.Key(sha512.New, s.pass, s.salt, 4096, 64)
		ck := mac(salted, "Client Key")
		stored := sha512.Sum512(ck)
		am := s.first + "," + s.serv + "," + m[:i]
		sig := mac(stored[:], am)
		proof, _ := base64.StdEncoding.DecodeString(m[i+3:])
		if len(proof) != len(sig) {
			return nil, false, fmt.Errorf("proof length")
		}
		for j := range proof {
			proof[j] ^= sig[j]
		}
		if !hmac.Equal(proof, ck) {
			return nil, false, fmt.Errorf("wrong password")
		}
		return []byte("v=" + base64.StdEncoding.EncodeToString(mac(mac(salted, "Server Key"), am))), true, nil
	}
	return nil, false, fmt.Errorf("too many messages")
}

// checkIam verifies an AWS_MSK_IAM payload: a presigned kafka-cluster:Connect with the given credentials.
func checkIam(b []byte, addr string, want aws.Credentials) error {
	m := map[string]string{}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	host, _, _ := net.SplitHostPort(addr)
	cred := strings.SplitN(m["x-amz-credential"], "/", 2)
	if len(cred) != 2 || cred[0] == "" {
		return fmt.Errorf("no credential")
	}
	if cred[0] != want.AccessKeyID {
		return fmt.Errorf("access key %q, want %q", cred[0], want.AccessKeyID)
	}
	if m["x-amz-security-token"] != want.SessionToken {
		return fmt.Errorf("session token %q, want %q", m["x-amz-security-token"], want.SessionToken)
	}
	if m["host"] != host || m["action"] != "kafka-cluster:Connect" {
		return fmt.Errorf("host or action")
	}
	var q []string
	for _, k := range []string{"Action", "X-Amz-Algorithm", "X-Amz-Credential", "X-Amz-Date", "X-Amz-Expires", "X-Amz-Security-Token", "X-Amz-SignedHeaders"} {
		if v, ok := m[strings.ToLower(k)]; ok {
			q = append(q, k+"="+strings.ReplaceAll(url.QueryEscape(v), "+", "%20"))
		}
	}
	sort.Strings(q)
	sum := func(s string) string {
		h := sha256.Sum256([]byte(s))
		return hex.EncodeToString(h[:])
	}
	canon := "GET\n/\n" + strings.Join(q, "&") + "\nhost:" + host + "\n\nhost\n" + sum("")
	sts := "AWS4-HMAC-SHA256\n" + m["x-amz-date"] + "\n" + cred[1] + "\n" + sum(canon)
	key := []byte("AWS4" + want.SecretAccessKey)
	for _, p := range strings.Split(cred[1], "/") {
		h := hmac.New(sha256.New, key)
		h.Write([]byte(p))
		key = h.Sum(nil)
	}
	h := hmac.New(sha256.New, key)
	h.Write([]byte(sts))
	if hex.EncodeToString(h.Sum(nil)) != m["x-amz-signature"] {
		return fmt.Errorf("signature")
	}
	return nil
}

// pki is an authority with one server and one client certificate.
var pki = func() (p struct {
	pool           *x509.CertPool
	server, client tls.Certificate
}) {
	mk := func(t, parent *x509.Certificate, pk any) (*x509.Certificate, *ecdsa.PrivateKey) {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		t.NotBefore, t.NotAfter = time.Now().Add(-time.Hour), time.Now().Add(24*time.Hour)
		if pk == nil {
			parent, pk = t, k
		}
		b, err := x509.CreateCertificate(rand.Reader, t, parent, &k.PublicKey, pk)
		if err != nil {
			panic(err)
		}
		c, _ := x509.ParseCertificate(b)
		return c, k
	}
	ca, cak := mk(&x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "authority"}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}, nil, nil)
	p.pool = x509.NewCertPool()
	p.pool.AddCert(ca)
	for i, name := range []string{"server", "client"} {
		c, k := mk(&x509.Certificate{SerialNumber: big.NewInt(int64(2 + i)), Subject: pkix.Name{CommonName: name}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)},
			ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}, KeyUsage: x509.KeyUsageDigitalSignature}, ca, cak)
		t := tls.Certificate{Certificate: [][]byte{c.Raw}, PrivateKey: k}
		if i == 0 {
			p.server = t
		} else {
			p.client = t
		}
	}
	return
}()
