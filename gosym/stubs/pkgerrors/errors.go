package errors

import (
	serrors "errors"
	"fmt"
)

type Frame uintptr
type StackTrace []Frame

type withMsg struct {
	msg   string
	cause error
}

func (e *withMsg) Error() string {
	if e.cause != nil {
		return e.msg + ": " + e.cause.Error()
	}
	return e.msg
}
func (e *withMsg) Unwrap() error { return e.cause }
func (e *withMsg) Cause() error  { return e.cause }

func New(m string) error                              { return &withMsg{m, nil} }
func Errorf(f string, a ...interface{}) error         { return &withMsg{fmt.Sprintf(f, a...), nil} }
func WithStack(e error) error                         { return e }
func Wrap(e error, m string) error                    { return &withMsg{m, e} }
func Wrapf(e error, f string, a ...interface{}) error { return &withMsg{fmt.Sprintf(f, a...), e} }
func WithMessage(e error, m string) error             { return &withMsg{m, e} }
func Is(e, t error) bool                              { return serrors.Is(e, t) }
func As(e error, t interface{}) bool                  { return serrors.As(e, t) }
func Unwrap(e error) error                            { return serrors.Unwrap(e) }
func Cause(e error) error {
	for e != nil {
		c, ok := e.(interface{ Cause() error })
		if !ok || c.Cause() == nil {
			break
		}
		e = c.Cause()
	}
	return e
}

func (StackTrace) Format(s fmt.State, verb rune) {}
func (Frame) Format(s fmt.State, verb rune)      {}
