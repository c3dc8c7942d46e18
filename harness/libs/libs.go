// Package libs pins the packages generated decorators may import.
package libs

import (
	_ "bufio"
	_ "bytes"
	_ "cmp"
	_ "container/heap"
	_ "container/list"
	_ "container/ring"
	_ "context"
	_ "database/sql/driver"
	_ "encoding/base64"
	_ "encoding/gob"
	_ "encoding/json"
	_ "errors"
	_ "flag"
	_ "fmt"
	_ "go/types"
	_ "html/template"
	_ "image/draw"
	_ "io"
	_ "io/fs"
	_ "iter"
	_ "log"
	_ "log/slog"
	_ "math/big"
	_ "math/rand"
	_ "math/rand/v2"
	_ "net/http"
	_ "net/http/cookiejar"
	_ "net/http/httptrace"
	_ "net/rpc"
	_ "net/smtp"
	_ "net/url"
	_ "os"
	_ "reflect"
	_ "slices"
	_ "sort"
	_ "strconv"
	_ "strings"
	_ "sync"
	_ "sync/atomic"
	_ "text/tabwriter"
	_ "text/template"
	_ "text/template/parse"
	_ "time"
	_ "unicode"

	_ "github.com/opentracing/opentracing-go"
	_ "github.com/opentracing/opentracing-go/ext"
	_ "github.com/opentracing/opentracing-go/log"
	_ "github.com/opentracing/opentracing-go/mocktracer"
	_ "github.com/prometheus/client_golang/prometheus"
	_ "github.com/prometheus/client_golang/prometheus/promauto"
	_ "github.com/prometheus/client_model/go"
	_ "github.com/sirupsen/logrus"
	_ "github.com/twitchtv/twirp"
	_ "go.elastic.co/apm/v2"
	_ "go.elastic.co/apm/v2/model"
	_ "go.elastic.co/apm/v2/transport"
	_ "go.opencensus.io/trace"
	_ "go.opentelemetry.io/otel"
	_ "go.opentelemetry.io/otel/attribute"
	_ "go.opentelemetry.io/otel/codes"
	_ "go.opentelemetry.io/otel/trace"
	_ "google.golang.org/grpc/codes"
	_ "google.golang.org/grpc/status"
)
