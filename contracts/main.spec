// The rate limiter service: settings reach their components, and nothing admitted is lost on a signal.
package vsa/cmd/ratelimiter-api

def cli(n) = ghost("$flag", n)
def clib(n) = ghost("$flag", n) == 1
def received() = ghost("$received") >= 1
def down() = ghost("$shutdown") == 1
def stopped() = ghost("$stopped") == 1
def live() = received() && ghost("$started") == 1

contract main() ()
  option safety G01
  option exits yes
  option spawn run
  option open persistence.BuildPersister:persister! core.NewWorker:worker! core.Worker.Start:started core.Worker.Stop:stopped core.Store.CloseAll:closed core.NewStoreWithOptions:store! api.NewServer:server! api.Server.RegisterRoutes:routes net/http.NewServeMux:mux! net/http.Server.ListenAndServe:serving net/http.Server.Shutdown:shutdown invoke:core.Persister.PrintFinalMetrics:final telemetry/churn.Enable:churn core.SetThreshold:reported core.SetThresholdInt64:reported core.SetThresholdDuration:reported core.SetThresholdBool:reported core.SetThresholdFloat64:reported
  option count chan.recv:received api.Server.RegisterRoutes:routed@1
  requires ghost("$received") == 0 && ghost("$started") == 0 && ghost("$stopped") == 0 && ghost("$shutdown") == 0 && ghost("$final") == 0 && ghost("$closed") == 0 && ghost("$serving") == 0 && ghost("$ingo") == 0
  requires ghost("$worker") == 0 && ghost("$store") == 0 && ghost("$persister") == 0 && ghost("$server") == 0 && ghost("$churn") == 0 && ghost("$spawns") == 0
  requires forall(q, !bghost("$flagdef", q)) && forall(q, !bghost("$notified", q)) && forall(q, ghost("$routed", q) == 0)
  at[G01] "every value reported is the setting of that name" core.SetThreshold : a1 == cli(a0)
  at[G01] "every value reported is the setting of that name" core.SetThresholdInt64 : a1 == cli(a0)
  at[G01] "every value reported is the setting of that name" core.SetThresholdDuration : a1 == cli(a0)
  at[G01] "every value reported is the setting of that name" core.SetThresholdBool : a1 == clib(a0)
  at[G01] "every value reported is the setting of that name" core.SetThresholdFloat64 : a1 == cli(a0)
  at[G01] "telemetry is given its settings" telemetry/churn.Enable : a0.Enabled == clib("churn_metrics") && a0.SampleRate == cli("churn_sample") && a0.MetricsAddr == cli("metrics_addr") && a0.LogInterval == cli("churn_log_interval") && a0.TopN == cli("churn_top_n") && a0.KeyHashLen == cli("churn_key_hash_len")
  at[G01] "the persister is given its settings" persistence.BuildPersister : a0 == cli("persistence_adapter") && a1.RedisMarkerTTL == cli("redis_marker_ttl") && a1.RedisAddr == cli("redis_addr") && a1.KafkaTopic == cli("kafka_topic")
  at[G01] "the store is given the budget and the engine's settings" core.NewStoreWithOptions : a0 == cli("rate_limit") && a1.Stripes == cli("vsa_stripes") && a1.CheapUpdateChooser == clib("vsa_cheap_update_chooser") && a1.PerPUpdateChooser == clib("vsa_per_p_update_chooser") && a1.UseCachedGate == clib("vsa_use_cached_gate") && a1.CacheInterval == cli("vsa_cache_interval") && a1.CacheSlack == cli("vsa_cache_slack") && a1.GroupCount == cli("vsa_group_count") && a1.GroupSlack == cli("vsa_group_slack") && a1.FastPathGuard == cli("vsa_fast_path_guard") && a1.HierarchicalGroups == cli("vsa_hierarchical_groups")
  at[G01] "the worker persists this store to this persister" core.NewWorker : ref(a0) == ghost("$store.result") && payload(a1) == ghost("$persister.result") && ghost("$worker") == 0
  at[G01] "the worker is given its settings" core.NewWorker : a2 == cli("commit_threshold") && a3 == cli("commit_low_watermark") && a4 == cli("commit_interval") && a5 == cli("commit_max_age") && a6 == cli("eviction_age") && a7 == cli("eviction_interval")
  at[G01] "the API serves this store and its budget" api.NewServer : ref(a0) == ghost("$store.result") && a1 == cli("rate_limit")
  at[G01] "the routes of this API" api.Server.RegisterRoutes : ref(a0) == ghost("$server.result")
  at[G01] "serving these routes at the address given, in the background, until a signal" net/http.Server.ListenAndServe : ghost("$routed", payload(a0.Handler)) == 1 && a0.Addr == cli("http_addr") && ghost("$ingo") == 1 && !received()
  at[G01] "the worker runs once" core.Worker.Start : ref(a0) == ghost("$worker.result") && ghost("$started") == 0
  at[G01] "only a termination signal is waited for" chan.recv : bghost("$notified", a0)
  at[G01] "requests are finished before anything else stops" net/http.Server.Shutdown : ghost("$ingo") == 0 && received() && ghost("$shutdown") == 0 && ghost("$stopped") == 0 && ghost("$closed") == 0 && ghost("$routed", payload(a0.Handler)) == 1
  at[G01] "requests in flight are given time to finish" net/http.Server.Shutdown : implies(tag(a1) != 0, bghost("$ctxlive", payload(a1)) && ghost("$ctxtime", payload(a1)) >= 1000000000)
  at[G01] "the worker stops after the last request" core.Worker.Stop : ghost("$ingo") == 0 && ref(a0) == ghost("$worker.result") && down() && ghost("$closed") == 0
  at[G01] "the totals are printed after the final flush" invoke:core.Persister.PrintFinalMetrics : ghost("$ingo") == 0 && payload(a0) == ghost("$persister.result") && stopped() && ghost("$final") == 0
  at[G01] "refreshers stop after the final flush" core.Store.CloseAll : ghost("$ingo") == 0 && ref(a0) == ghost("$store.result") && stopped()
  at[G01] "the process does not end before the final flush" log.Fatalf : implies(live(), down() && stopped() && ghost("$final") == 1 && ghost("$closed") == 1)
  at[G01] "the process does not end before the final flush" log.Fatal : implies(live(), down() && stopped() && ghost("$final") == 1 && ghost("$closed") == 1)
  at[G01] "the process does not end before the final flush" log.Fatalln : implies(live(), down() && stopped() && ghost("$final") == 1 && ghost("$closed") == 1)
  at[G01] "the process does not end before the final flush" os.Exit : implies(live(), down() && stopped() && ghost("$final") == 1 && ghost("$closed") == 1)
  ensures[G01] "it served" ghost("$serving") == 1 && ghost("$started") == 1 && ghost("$churn") == 1
  ensures[G01] "it ends after a signal, a shutdown and a final flush" received() && down() && stopped()
  ensures[G01] "totals are printed and refreshers stopped" ghost("$final") == 1 && ghost("$closed") == 1
