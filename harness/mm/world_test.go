// Package main: harness for the client-side parts: the MMF request reader, the
// sample matchmaking functions and the example matchmaker.
package main

import (
	"io"
	"runtime/debug"
	"strings"
	"testing"
	context "verif.local/vrt/vctx"

	"github.com/sirupsen/logrus"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

func TestVerif(t *testing.T) { vrt.Main(t) }

func silence() {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	logrus.StandardLogger().ExitFunc = vrt.Fatal
}

// runStream is the server side of one MMF run: the messages om-core sends, an
// error after them, and what the function streamed back.
type runStream struct {
	msgs    []*pb.ChunkedMmfRunRequest
	end     error // after msgs
	recvs   int
	sent    []*pb.StreamedMmfResponse
	sendErr error // for the send number sendAt
	sendAt  int
	sends   int
}

func (s *runStream) Recv() (*pb.ChunkedMmfRunRequest, error) {
	s.recvs++
	if s.recvs > len(s.msgs) {
		return nil, s.end
	}
	return proto.Clone(s.msgs[s.recvs-1]).(*pb.ChunkedMmfRunRequest), nil
}

func (s *runStream) Send(m *pb.StreamedMmfResponse) error {
	s.sends++
	if s.sendErr != nil && s.sends > s.sendAt {
		return s.sendErr
	}
	s.sent = append(s.sent, proto.Clone(m).(*pb.StreamedMmfResponse))
	return nil
}

func (s *runStream) SetHeader(metadata.MD) error  { return nil }
func (s *runStream) SendHeader(metadata.MD) error { return nil }
func (s *runStream) SetTrailer(metadata.MD)       {}
func (s *runStream) Context() context.Context     { return context.Background() }
func (s *runStream) SendMsg(any) error            { panic("SendMsg") }
func (s *runStream) RecvMsg(any) error            { panic("RecvMsg") }

// guard turns a panic of f into a violation that names the input.
func guard(x *vrt.X, input func() string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			x.Fail("panic %v\n%s\ninput: %s", r, where(debug.Stack()), input())
		}
	}()
	f()
}

// where picks the repository's frames out of a stack.
func where(b []byte) string {
	var out []string
	l := strings.Split(string(b), "\n")
	for i := 1; i+1 < len(l); i += 2 {
		if strings.Contains(l[i], "open-match.dev") && !strings.Contains(l[i+1], "zz_verif") {
			out = append(out, l[i], l[i+1])
		}
	}
	return strings.Join(out, "\n")
}
