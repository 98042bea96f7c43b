// Package vtls is crypto/tls with dialing cut off: the in-memory network is plain.
package vtls

import (
	"crypto/tls"
	"errors"

	"vsched/vnet"
)

var errNoTLS = errors.New("vtls: no TLS on the in-memory network")

// DialWithDialer always fails.
func DialWithDialer(_ *vnet.Dialer, _, _ string, _ *tls.Config) (*tls.Conn, error) {
	return nil, errNoTLS
}
