package rx

import (
	"errors"
	"strings"
)

// vNoFile stands for the reference data (country prefixes, contest callsigns), which is not available.
func vNoFile() (string, error) { return "", errors.New("no reference data") }

type vReport struct {
	what, listener, callsign string
	frequency                int
	count, weight            int
}

// vReports records what a listener reports.
type vReports struct{ all []vReport }

func (r *vReports) ListenerActivated(listener string, frequency int) {
	r.all = append(r.all, vReport{"activated", listener, "", frequency, 0, 0})
}
func (r *vReports) ListenerDeactivated(listener string, frequency int) {
	r.all = append(r.all, vReport{"deactivated", listener, "", frequency, 0, 0})
}
func (r *vReports) CallsignDecoded(listener string, callsign string, frequency int, count int, weight int) {
	r.all = append(r.all, vReport{"decoded", listener, callsign, frequency, count, weight})
}
func (r *vReports) CallsignSpotted(listener string, callsign string, frequency int) {
	r.all = append(r.all, vReport{"spotted", listener, callsign, frequency, 0, 0})
}
func (r *vReports) SpotTimeout(listener string, callsign string, frequency int) {
	r.all = append(r.all, vReport{"timeout", listener, callsign, frequency, 0, 0})
}

func (r *vReports) count(what string) int {
	n := 0
	for _, x := range r.all {
		if x.what == what {
			n++
		}
	}
	return n
}

func (r *vReports) String() string {
	var s []string
	for _, x := range r.all {
		s = append(s, x.what+" "+x.callsign)
	}
	return strings.Join(s, ", ")
}
