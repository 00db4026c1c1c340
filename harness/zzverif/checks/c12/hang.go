package main

import (
	"net/http"

	"github.com/hyp3rd/hypercache/internal/zzverif/fake"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

// hangNet answers nothing while stuck, until the request is given up.
type hangNet struct {
	*fake.Net
	stuck *bool
}

func (h *hangNet) RoundTrip(r *http.Request) (*http.Response, error) {
	if *h.stuck {
		vsched.Recv(r.Context().Done())
		return nil, r.Context().Err()
	}
	return h.Net.RoundTrip(r)
}
