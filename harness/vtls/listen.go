// Package vtls stands in for crypto/tls in the code under test; Listen goes through vnet.
package vtls

import (
	"crypto/tls"
	"errors"
	"net"

	"vh/vnet"
)

func Listen(network, laddr string, config *tls.Config) (net.Listener, error) {
	if config == nil || len(config.Certificates) == 0 &&
		config.GetCertificate == nil && config.GetConfigForClient == nil {
		return nil, errors.New("tls: neither Certificates, GetCertificate, nor GetConfigForClient set in Config")
	}
	l, err := vnet.Listen(network, laddr)
	if err != nil {
		return nil, err
	}
	return tls.NewListener(l, config), nil
}
