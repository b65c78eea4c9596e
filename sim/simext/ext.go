// Package simext holds the seams that need third-party types.
package simext

import (
	"context"
	"flag"
	"fmt"
	"net"
	"net/http"
	"os"
	"sort"

	jsonrpc "github.com/filecoin-project/go-jsonrpc"
	"github.com/go-redis/redis/v8"
	"github.com/mattn/go-sqlite3"
	"github.com/spf13/pflag"
	"github.com/spf13/viper"

	sql "github.com/ConsenSys/fc-retrieval/common/pkg/zzsql"
	"sim.local/h/simrt"
)

// MergeClient is installed by the harness: it fills the function fields of outs with the simulated chain.
var MergeClient func(node *simrt.Node, addr string, outs []interface{}, h http.Header) error

func NewMergeClient(ctx context.Context, addr string, ns string, outs []interface{}, h http.Header, opts ...jsonrpc.Option) (jsonrpc.ClientCloser, error) {
	if MergeClient == nil {
		return nil, fmt.Errorf("no chain in this simulation")
	}
	if err := MergeClient(simrt.CurNode(), addr, outs, h); err != nil {
		return nil, err
	}
	return func() {}, nil
}

func NewJSONRPCClient(ctx context.Context, addr string, ns string, handler interface{}, h http.Header) (jsonrpc.ClientCloser, error) {
	return NewMergeClient(ctx, addr, ns, []interface{}{handler}, h)
}

// RedisDial is installed by the harness.
var RedisDial func(addr string) (net.Conn, error)

func NewRedisClient(o *redis.Options) *redis.Client {
	c := *o
	c.Dialer = func(ctx context.Context, network, addr string) (net.Conn, error) { return RedisDial(addr) }
	c.IdleCheckFrequency = -1
	c.MinIdleConns = 0
	c.MaxRetries = -1
	return redis.NewClient(&c)
}

// SQLDriver is the database/sql driver to use in place of the named one.
var SQLDriver = "sqlite3"

// SQLDSN maps a data source name of the current machine to the simulated disk.
var SQLDSN = func(n *simrt.Node, dsn string) string { return dsn }

// SQLOpened sees every handle the code opens.
var SQLOpened func(n *simrt.Node, db *sql.DB)

func SQLOpen(driver, dsn string) (*sql.DB, error) {
	n := simrt.CurNode()
	if len(sql.Drivers()) == 0 {
		sql.Register(SQLDriver, &sqlite3.SQLiteDriver{})
	}
	db, err := sql.Open(SQLDriver, SQLDSN(n, dsn))
	if err == nil && SQLOpened != nil {
		SQLOpened(n, db)
	}
	return db, err
}

// ViperAutomaticEnv gives the configuration the environment of the current simulated process.
func ViperAutomaticEnv(v *viper.Viper) {
	flag.CommandLine = flag.NewFlagSet("sim", flag.ContinueOnError)
	pflag.CommandLine = pflag.NewFlagSet("sim", pflag.ContinueOnError)
	os.Args = os.Args[:1]
	n := simrt.CurNode()
	if n == nil {
		return
	}
	var ks []string
	for k := range n.Env {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		v.Set(k, n.Env[k])
	}
}
