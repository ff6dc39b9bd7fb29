// Package log15 is a silent stand-in for the logging library.
package log15

type Ctx map[string]interface{}
type Lvl int

const (
	LvlCrit Lvl = iota
	LvlError
	LvlWarn
	LvlInfo
	LvlDebug
)

type Record struct{}
type Handler interface{ Log(r *Record) error }
type Lazy struct{ Fn interface{} }

type Logger interface {
	New(ctx ...interface{}) Logger
	GetHandler() Handler
	SetHandler(h Handler)
	Debug(msg string, ctx ...interface{})
	Info(msg string, ctx ...interface{})
	Warn(msg string, ctx ...interface{})
	Error(msg string, ctx ...interface{})
	Crit(msg string, ctx ...interface{})
}

type nop struct{}

func (nop) New(ctx ...interface{}) Logger        { return nop{} }
func (nop) GetHandler() Handler                  { return nil }
func (nop) SetHandler(h Handler)                 {}
func (nop) Debug(msg string, ctx ...interface{}) {}
func (nop) Info(msg string, ctx ...interface{})  {}
func (nop) Warn(msg string, ctx ...interface{})  {}
func (nop) Error(msg string, ctx ...interface{}) {}
func (nop) Crit(msg string, ctx ...interface{})  {}

func New(ctx ...interface{}) Logger        { return nop{} }
func Root() Logger                         { return nop{} }
func DiscardHandler() Handler              { return nil }
func Debug(msg string, ctx ...interface{}) {}
func Info(msg string, ctx ...interface{})  {}
func Warn(msg string, ctx ...interface{})  {}
func Error(msg string, ctx ...interface{}) {}
func Crit(msg string, ctx ...interface{})  {}
