# The runner (C17).
package netscrape
import netscrape netscrape
import plan plan
immutable Runner.opts

func WithStore(s) result
  props C17
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).Store == s && apply(result, o).Broker == o.Broker && apply(result, o).Marshaler == o.Marshaler

func WithBroker(b) result
  props C17
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).Store == o.Store && apply(result, o).Broker == b && apply(result, o).Marshaler == o.Marshaler

func WithMarshaler(m) result
  props C17
  flag inline
  ensures result != nil && forall o Options :: apply(result, o).Store == o.Store && apply(result, o).Broker == o.Broker && apply(result, o).Marshaler == m

func NewRunner(opts) (result, err)
  props C17
  ensures err == nil && result != nil && fresh(result)
  ensures result.opts == fold(opts)

# any scraper
iface Scraper
method Scrape(ctx, p, opts) err
  flag event Scrape

func (r *Runner) Run(ctx, p, s, opts) result
  props C17
  requires s != nil
  ensures calls("Scrape") == 1
  ensures arg("Scrape", 0, 0) == s && arg("Scrape", 0, 1) == ctx && arg("Scrape", 0, 2) == p
  ensures result == res("Scrape", 0, 0)
  ensures fold(arg("Scrape", 0, 3)).Store == fold(opts, r.opts).Store && fold(arg("Scrape", 0, 3)).Broker == fold(opts, r.opts).Broker && fold(arg("Scrape", 0, 3)).Marshaler == fold(opts, r.opts).Marshaler
