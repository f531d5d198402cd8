// Code generated by tools/shimgen. DO NOT EDIT.

package vgnet

import x "github.com/panjf2000/gnet"

type Action = x.Action
type BuiltInFrameCodec = x.BuiltInFrameCodec

var CRLFByte = x.CRLFByte

type Client = x.Client

const Close = x.Close

type Conn = x.Conn
type DecoderConfig = x.DecoderConfig
type DelimiterBasedFrameCodec = x.DelimiterBasedFrameCodec
type EncoderConfig = x.EncoderConfig
type EventHandler = x.EventHandler
type EventServer = x.EventServer
type FixedLengthFrameCodec = x.FixedLengthFrameCodec
type ICodec = x.ICodec

const LeastConnections = x.LeastConnections

type LengthFieldBasedFrameCodec = x.LengthFieldBasedFrameCodec
type LineBasedFrameCodec = x.LineBasedFrameCodec
type LoadBalancing = x.LoadBalancing

var NewClient = x.NewClient
var NewDelimiterBasedFrameCodec = x.NewDelimiterBasedFrameCodec
var NewFixedLengthFrameCodec = x.NewFixedLengthFrameCodec
var NewLengthFieldBasedFrameCodec = x.NewLengthFieldBasedFrameCodec

const None = x.None

type Option = x.Option
type Options = x.Options

const RoundRobin = x.RoundRobin

type Server = x.Server

const Shutdown = x.Shutdown
const SourceAddrHash = x.SourceAddrHash
const TCPDelay = x.TCPDelay
const TCPNoDelay = x.TCPNoDelay

type TCPSocketOpt = x.TCPSocketOpt

var WithCodec = x.WithCodec
var WithLoadBalancing = x.WithLoadBalancing
var WithLockOSThread = x.WithLockOSThread
var WithLogLevel = x.WithLogLevel
var WithLogPath = x.WithLogPath
var WithLogger = x.WithLogger
var WithMulticore = x.WithMulticore
var WithNumEventLoop = x.WithNumEventLoop
var WithOptions = x.WithOptions
var WithReadBufferCap = x.WithReadBufferCap
var WithReuseAddr = x.WithReuseAddr
var WithReusePort = x.WithReusePort
var WithSocketRecvBuffer = x.WithSocketRecvBuffer
var WithSocketSendBuffer = x.WithSocketSendBuffer
var WithTCPKeepAlive = x.WithTCPKeepAlive
var WithTCPNoDelay = x.WithTCPNoDelay
var WithTicker = x.WithTicker
