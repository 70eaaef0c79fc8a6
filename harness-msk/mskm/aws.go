// Package mskm holds the monitor of the msk package: a stand-in for the MSK API behind an HTTP client, and brokers that
// authenticate clients in every way MSK knows.
package mskm

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"

	"github.com/aws/aws-sdk-go-v2/aws"
)

// kinds of addresses, in the order of msk.AuthType
const (
	kNone = iota
	kTLS
	kScram
	kIam
	kPubTLS
	kPubScram
	kPubIam
	kinds
)

var kindNames = []string{"None", "MutualTLS", "SaslScram", "SaslIam", "PublicMutualTLS", "PublicSaslScram", "PublicSaslIam"}

var fields = []string{"bootstrapBrokerString", "bootstrapBrokerStringTls", "bootstrapBrokerStringSaslScram", "bootstrapBrokerStringSaslIam",
	"bootstrapBrokerStringPublicTls", "bootstrapBrokerStringPublicSaslScram", "bootstrapBrokerStringPublicSaslIam"}

type cluster struct {
	region, name, arn string
	addrs             [kinds][]string // nil: not offered
}

// service is the MSK API of all regions.
type service struct {
	mu       sync.Mutex
	clusters []*cluster
	page     int                          // clusters per page
	gap      func() bool                  // an empty page comes first
	fault    func(op string) (int, error) // status or transport error
	failures int                          // calls which failed
	calls    int
	log      []string
}

func (s *service) Do(rq *http.Request) (*http.Response, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls++
	host := strings.Split(rq.URL.Host, ".")
	region := ""
	if len(host) > 2 && host[0] == "kafka" {
		region = host[1]
	}
	path := rq.URL.EscapedPath()
	op := "list"
	if strings.HasSuffix(path, "/bootstrap-brokers") {
		op = "brokers"
	}
	s.log = append(s.log, fmt.Sprintf("%s %s %s?%s", rq.Method, region, path, rq.URL.RawQuery))
	if st, err := s.fault(op); err != nil || st != 0 {
		s.failures++
		s.log = append(s.log, fmt.Sprintf("  fails: %d %v", st, err))
		if err != nil {
			return nil, err
		}
		if st == 200 { // garbled
			return reply(rq, 200, []byte(`{"clusterInfoList":[{"clusterArn":`)), nil
		}
		rs := reply(rq, st, []byte(`{"message":"no"}`))
		rs.Header.Set("X-Amzn-ErrorType", map[int]string{400: "BadRequestException", 403: "ForbiddenException", 429: "TooManyRequestsException", 500: "InternalServerErrorException", 503: "ServiceUnavailableException"}[st])
		return rs, nil
	}
	var of []*cluster
	for _, c := range s.clusters {
		if c.region == region {
			of = append(of, c)
		}
	}
	switch {
	case op == "brokers" && strings.HasPrefix(path, "/v1/clusters/"):
		arn, err := url.PathUnescape(strings.TrimSuffix(strings.TrimPrefix(path, "/v1/clusters/"), "/bootstrap-brokers"))
		for _, c := range of {
			if err == nil && c.arn == arn {
				m := map[string]string{}
				for k, a := range c.addrs {
					if a != nil {
						m[fields[k]] = strings.Join(a, ",")
					}
				}
				b, _ := json.Marshal(m)
				return reply(rq, 200, b), nil
			}
		}
	case path == "/v1/clusters":
		q := rq.URL.Query()
		var l []*cluster
		for _, c := range of {
			if strings.HasPrefix(c.name, q.Get("clusterNameFilter")) {
				l = append(l, c)
			}
		}
		from, n := 0, s.page
		if t := q.Get("nextToken"); t != "" {
			if _, err := fmt.Sscanf(t, "at%d", &from); err != nil {
				s.failures++
				rs := reply(rq, 400, []byte(`{"message":"token"}`))
				rs.Header.Set("X-Amzn-ErrorType", "BadRequestException")
				return rs, nil
			}
		} else if s.gap() {
			n = 0
		}
		if mx := q.Get("maxResults"); mx != "" {
			k := 0
			fmt.Sscan(mx, &k)
			n = min(n, k)
		}
		type info struct {
			ClusterArn  string `json:"clusterArn"`
			ClusterName string `json:"clusterName"`
			State       string `json:"state"`
		}
		out := struct {
			ClusterInfoList []info  `json:"clusterInfoList"`
			NextToken       *string `json:"nextToken,omitempty"`
		}{ClusterInfoList: []info{}}
		to := min(len(l), from+n)
		for _, c := range l[min(from, to):to] {
			out.ClusterInfoList = append(out.ClusterInfoList, info{c.arn, c.name, "ACTIVE"})
		}
		if to < len(l) {
			t := fmt.Sprint("at", to)
			out.NextToken = &t
		}
		b, _ := json.Marshal(out)
		return reply(rq, 200, b), nil
	}
	s.failures++
	s.log = append(s.log, "  not found")
	rs := reply(rq, 404, []byte(`{"message":"not found"}`))
	rs.Header.Set("X-Amzn-ErrorType", "NotFoundException")
	return rs, nil
}

func reply(rq *http.Request, status int, b []byte) *http.Response {
	return &http.Response{StatusCode: status, Status: http.StatusText(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), Request: rq}
}

func (s *service) failed() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.failures
}

func (s *service) fail() {
	s.mu.Lock()
	s.failures++
	s.mu.Unlock()
}

// vault is the credentials provider of the application. The credentials change whenever the workload rotates them.
type vault struct {
	mu       sync.Mutex
	cur      aws.Credentials
	n        int
	ask      int
	down     func() bool
	downNow  bool
	onFail   func()
	sessions bool
}

func (v *vault) rotate() {
	v.mu.Lock()
	defer v.mu.Unlock()
	v.n++
	v.cur = aws.Credentials{AccessKeyID: fmt.Sprintf("AKID%d", v.n), SecretAccessKey: fmt.Sprintf("secret/%d+x", v.n), Source: "vault"}
	if v.sessions {
		v.cur.SessionToken = fmt.Sprintf("token/%d==", v.n)
	}
}

func (v *vault) Retrieve(context.Context) (aws.Credentials, error) {
	v.mu.Lock()
	defer v.mu.Unlock()
	v.ask++
	if v.downNow || v.down() {
		v.onFail()
		return aws.Credentials{}, errors.New("the vault is closed")
	}
	return v.cur, nil
}

func (v *vault) current() aws.Credentials {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.cur
}
