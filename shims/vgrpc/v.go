// Package grpc stands in for the declarations of google.golang.org/grpc that the stream wrapper and the
// generated client/server code name.
package grpc

import (
	"context"
	"errors"
)

const SupportPackageIsVersion4 = true

type Stream interface {
	Context() context.Context
	SendMsg(m interface{}) error
	RecvMsg(m interface{}) error
}

type ClientStream interface {
	CloseSend() error
	Context() context.Context
	SendMsg(m interface{}) error
	RecvMsg(m interface{}) error
}

type ServerStream interface {
	Context() context.Context
	SendMsg(m interface{}) error
	RecvMsg(m interface{}) error
}

type ClientConn struct{}
type CallOption interface{}
type Server struct{}
type MethodDesc struct{ MethodName string }
type StreamHandler func(srv interface{}, stream ServerStream) error
type StreamDesc struct {
	StreamName    string
	Handler       StreamHandler
	ServerStreams bool
	ClientStreams bool
}
type ServiceDesc struct {
	ServiceName string
	HandlerType interface{}
	Methods     []MethodDesc
	Streams     []StreamDesc
	Metadata    interface{}
}

func (s *Server) RegisterService(d *ServiceDesc, ss interface{}) {}

func NewClientStream(ctx context.Context, desc *StreamDesc, cc *ClientConn, method string, opts ...CallOption) (ClientStream, error) {
	return nil, errors.New("vgrpc: no connection")
}
