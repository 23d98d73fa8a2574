package checks

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"sync"
	"time"
)

// authority is a certificate authority of the tests.
type authority struct {
	dir  string
	name string
	key  *ecdsa.PrivateKey
	cert *x509.Certificate
	File string // the CA certificate, PEM
	pool *x509.CertPool
	n    int64
	mu   sync.Mutex
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func newCA(dir, name string) *authority {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(1000 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	must(err)
	cert, err := x509.ParseCertificate(der)
	must(err)
	a := &authority{dir: dir, name: name, key: k, cert: cert, n: 1, File: filepath.Join(dir, name+"-ca.pem"), pool: x509.NewCertPool()}
	a.pool.AddCert(cert)
	must(os.WriteFile(a.File, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600))
	return a
}

// leaf issues a certificate; it returns it ready for a server and as files.
func (a *authority) leaf(cn string, hosts []string, from, to time.Duration) (tls.Certificate, string, string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	a.mu.Lock()
	a.n++
	n := a.n
	a.mu.Unlock()
	t := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(from), NotAfter: time.Now().Add(to),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	for _, h := range hosts {
		if ip := net.ParseIP(h); ip != nil {
			t.IPAddresses = append(t.IPAddresses, ip)
		} else {
			t.DNSNames = append(t.DNSNames, h)
		}
	}
	der, err := x509.CreateCertificate(rand.Reader, t, a.cert, &k.PublicKey, a.key)
	must(err)
	kb, err := x509.MarshalECPrivateKey(k)
	must(err)
	cp := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	kp := pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})
	cf, kf := filepath.Join(a.dir, fmt.Sprintf("%s-%d.crt", a.name, n)), filepath.Join(a.dir, fmt.Sprintf("%s-%d.key", a.name, n))
	must(os.WriteFile(cf, cp, 0o600))
	must(os.WriteFile(kf, kp, 0o600))
	c, err := tls.X509KeyPair(cp, kp)
	must(err)
	return c, cf, kf
}

// special issues a server certificate for the loopback after some change of the template; chain adds the
// certificates given to what the server presents.
func (a *authority) special(change func(t *x509.Certificate), chain ...[]byte) tls.Certificate {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	a.mu.Lock()
	a.n++
	n := a.n
	a.mu.Unlock()
	t := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: "server"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(100 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		IPAddresses: []net.IP{net.ParseIP("127.0.0.1"), net.ParseIP("::1")}, DNSNames: []string{"localhost"}}
	change(t)
	der, err := x509.CreateCertificate(rand.Reader, t, a.cert, &k.PublicKey, a.key)
	must(err)
	return tls.Certificate{Certificate: append([][]byte{der}, chain...), PrivateKey: k}
}

// under makes an authority certified by another one.
func (a *authority) under(name string, change func(t *x509.Certificate)) *authority {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(77), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(1000 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	change(t)
	der, err := x509.CreateCertificate(rand.Reader, t, a.cert, &k.PublicKey, a.key)
	must(err)
	cert, err := x509.ParseCertificate(der)
	must(err)
	return &authority{dir: a.dir, name: name, key: k, cert: cert, n: 1000}
}

// named makes the authority sign in the name of another.
func (a *authority) named(name string) *authority {
	c := *a.cert
	c.RawSubject, c.Subject = nil, pkix.Name{CommonName: name}
	return &authority{dir: a.dir, name: a.name, key: a.key, cert: &c, n: a.n}
}

// good issues a valid server certificate for the loopback.
func (a *authority) good() tls.Certificate {
	c, _, _ := a.leaf("server", []string{"127.0.0.1", "::1", "localhost"}, -time.Hour, 100*time.Hour)
	return c
}

func serverTLS(c tls.Certificate) *tls.Config {
	return &tls.Config{Certificates: []tls.Certificate{c}, MaxVersion: tls.VersionTLS12, SessionTicketsDisabled: true}
}

func scratchDir() string {
	wd, err := os.Getwd() // the worker's scratch directory
	must(err)
	d, err := os.MkdirTemp(wd, "certs-")
	must(err)
	return d
}
