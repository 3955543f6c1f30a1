package vzerolog

import (
	"io"
	"time"
)

type Level int8

const (
	DebugLevel Level = iota
	InfoLevel
	WarnLevel
	ErrorLevel
	FatalLevel
	PanicLevel
	NoLevel
	Disabled
)

type Logger struct{}
type Context struct{}
type Event struct{ fatal bool }
type ConsoleWriter struct {
	Out        io.Writer
	TimeFormat string
	NoColor    bool
}

func (c ConsoleWriter) Write(p []byte) (int, error) { return len(p), nil }

var TimeFieldFormat string

func New(w io.Writer) Logger                              { return Logger{} }
func SetGlobalLevel(l Level)                              {}
func (l Logger) With() Context                            { return Context{} }
func (l Logger) Output(w io.Writer) Logger                { return l }
func (l Logger) Level(Level) Logger                       { return l }
func (c Context) Timestamp() Context                      { return c }
func (c Context) Caller() Context                         { return c }
func (c Context) Str(k, v string) Context                 { return c }
func (c Context) Logger() Logger                          { return Logger{} }
func (l *Logger) Info() *Event                            { return &Event{} }
func (l *Logger) Debug() *Event                           { return &Event{} }
func (l *Logger) Warn() *Event                            { return &Event{} }
func (l *Logger) Error() *Event                           { return &Event{} }
func (l *Logger) Fatal() *Event                           { return &Event{fatal: true} }
func (l *Logger) Panic() *Event                           { return &Event{fatal: true} }
func (e *Event) Str(k, v string) *Event                   { return e }
func (e *Event) Err(err error) *Event                     { return e }
func (e *Event) Int(k string, v int) *Event               { return e }
func (e *Event) Int64(k string, v int64) *Event           { return e }
func (e *Event) Uint64(k string, v uint64) *Event         { return e }
func (e *Event) Dur(k string, d time.Duration) *Event     { return e }
func (e *Event) Interface(k string, v interface{}) *Event { return e }
func (e *Event) Msgf(f string, a ...interface{})          { e.Msg(f) }
func (e *Event) Msg(m string) {
	if e.fatal {
		panic("fatal log: process exit")
	}
}
