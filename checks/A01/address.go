package cli

import (
	"net"
	"strconv"
)

//verif:stub net.ResolveTCPAddr = vResolve
//verif:bound every argument of up to 7 (quick) / 9 (thorough) characters from the alphabet of host names, numbers, colons and brackets; every default port
//verif:assume resolving an address is a stand-in that records the address, which is taken apart by net.SplitHostPort

var vNetworkName, vAddress string

func vResolve(network, address string) (*net.TCPAddr, error) {
	vNetworkName, vAddress = network, address
	return &net.TCPAddr{}, nil
}

// vAddressOf returns host and port of the address that is resolved for the argument.
func vAddressOf(arg string, port int) (string, string) {
	vAddress = ""
	_, err := ParseTCPAddrArg(arg, "default", port)
	vAssert(err == nil, "the argument is valid")
	vAssert(vNetworkName == "tcp", "the address is a TCP address")
	h, p, err := net.SplitHostPort(vAddress)
	vAssert(err == nil, "the address is valid")
	return h, p
}

func vDigits(name string, max int) string {
	b := vBytes(name, max)[:vChoose("digits", max+1)]
	for i := range b {
		vAssume(vAnd(b[i] >= '0', b[i] <= '9'))
	}
	return string(b)
}

// vHostChar is a character of a host name or an IPv4 address.
func vHostChar(c byte) bool {
	return vOr(vOr(vAnd(c >= 'a', c <= 'z'), vAnd(c >= '0', c <= '9')), vOr(c == '.', c == '-'))
}

func vOr2(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

//verif:harness vHarness_hostport native=0 mode=exact merge=0 p.n=4/6 p.m=3/5 budget=100/300
func vHarness_hostport() {
	port := vInt("default", 1, 65535)
	host := vBytes("host", vParam("n", 4))[:vChoose("length", vParam("n", 4)+1)]
	for i := range host {
		vAssume(vHostChar(host[i]))
	}
	arg, explicit := string(host), ""
	if vBool("explicit") {
		explicit = vDigits("port", vParam("m", 3))
		arg += ":" + explicit
	}
	h, p := vAddressOf(arg, port)
	vAssert(h == vOr2(string(host), "default"), "the host is the one before the last colon or the default")
	vAssert(p == vOr2(explicit, strconv.Itoa(port)), "the port is the one after the last colon or the default")
	vReach("end")
}

//verif:harness vHarness_ipv6 native=0 mode=exact merge=0 p.n=4/6 p.m=3/5 budget=100/300
func vHarness_ipv6() {
	port := vInt("default", 1, 65535)
	host := vBytes("host", vParam("n", 4))[:1+vChoose("length", vParam("n", 4))]
	for i := range host {
		c := host[i]
		vAssume(vOr(vOr(c == ':', c == '.'), vOr(vAnd(c >= '0', c <= '9'), vAnd(c >= 'a', c <= 'f'))))
	}
	arg, explicit := "["+string(host)+"]", ""
	if vBool("explicit") {
		explicit = vDigits("port", vParam("m", 3))
		arg += ":" + explicit
	}
	h, p := vAddressOf(arg, port)
	vAssert(h == string(host), "the host is the one in the brackets")
	vAssert(p == vOr2(explicit, strconv.Itoa(port)), "the port is the one after the brackets or the default")
	vReach("end")
}

// Any argument: what follows the last colon is the port if it is a number, else there is no port.
//
//verif:harness vHarness_any native=0 mode=exact merge=0 p.n=5/7 budget=100/300
func vHarness_any() {
	b := vBytes("argument", vParam("n", 5))[:vChoose("length", vParam("n", 5)+1)]
	for i := range b {
		vAssume(vOr(vHostChar(b[i]), b[i] == ':'))
	}
	arg := string(b)
	colon, numeric := -1, true
	for i := len(arg) - 1; i >= 0; i-- {
		if arg[i] == ':' {
			colon = i
			break
		}
		if arg[i] < '0' || arg[i] > '9' {
			numeric = false
		}
	}
	host, port := arg, ""
	if colon >= 0 && numeric {
		host, port = arg[:colon], arg[colon+1:]
	}
	h, p := vAddressOf(arg, 7300)
	vAssert(h == vOr2(host, "default"), "the host is the one before the last colon or the default")
	vAssert(p == vOr2(port, "7300"), "the port is the one after the last colon or the default")
	vReach("end")
}
