package logrustash

import "github.com/sirupsen/logrus"

type Hook struct{ TimeFormat string }

func (*Hook) Levels() []logrus.Level   { return nil }
func (*Hook) Fire(*logrus.Entry) error { return nil }
func NewHook(a, b, c string) (*Hook, error) { return nil, nil }
