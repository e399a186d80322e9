package hx

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"

	"github.com/sirupsen/logrus"
)

// yielder makes what the code logs a point where other goroutines get a chance:
// the scheduler hardly ever switches there on its own.
type yielder struct{ n, yields atomic.Int64 }

func (y *yielder) Levels() []logrus.Level { return logrus.AllLevels }

func (y *yielder) Fire(*logrus.Entry) error {
	y.n.Add(1)
	n := 0
	switch rand.IntN(12) {
	case 0:
		n = 1 + rand.IntN(200)
	case 1, 2, 3:
		n = 1 + rand.IntN(8)
	}
	for k := 0; k < n; k++ {
		runtime.Gosched()
	}
	y.yields.Add(int64(n))
	return nil
}

type noFormat struct{}

func (noFormat) Format(*logrus.Entry) ([]byte, error) { return nil, nil }

// perturb sets how much is logged while case i runs: the lock of the logger
// orders what it is called by, so that not all cases should log everything.
func perturb(i int) {
	if i%3 == 0 {
		logrus.SetLevel(logrus.TraceLevel)
	} else {
		logrus.SetLevel(logrus.PanicLevel)
	}
}
