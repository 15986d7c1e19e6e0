// File logs. $cur(w) is the text after the last newline of a log, $mine counts the lines this call completes.
package vsa/internal/sinks

def cur(w) = ghost("$cur", w)
def broken(w) = ghost("$broken", w) != 0
def unflushed(w) = ghost("$unflushed", w) != 0
def mine() = ghost("$mine")
def R_log(s) = ref(s) != 0 && ref(s.w) != 0 && ref(s.f) != 0 && ghost("$onto", ref(s.w)) == ref(s.f) && (broken(ref(s.w)) || cur(ref(s.w)) == "")

contract NewVEnvFileSink(path) (s, err)
  option safety S01
  at[S01] "the log at the path, kept and appended to" log.open : a0 == path && a1 == 1 && a2 == 0 && a3 == 0 && a4 == 1
  ensures[S01] "open on a line of its own" implies(err == nil && bapp("regular", ref(s.f)), R_log(s))
  ensures[S01] "nothing is left to flush" implies(err == nil, ref(s) != 0 && !unflushed(ref(s.w)) && !broken(ref(s.w)) && s.mu.held == 0)

contract VEnvFileSink.Append(s, env)
  option safety S01
  option count log.line:mine
  requires R_log(s) && s.mu.held == 0 && mine() == 0
  at[S01] "the record, in the log" log.line : a0 == ref(s.w) && mine() == 0 && decodes("vsa/plugin/tfd.Envelope", a1, env)
  at[S01] "one writer at a time" log.write : s.mu.held >= 1
  at[S01] "one writer at a time" log.flush : s.mu.held >= 1
  ensures[S01] "once" broken(ref(s.w)) || mine() == 1
  ensures[S01] "a whole line" R_log(s)
  ensures[S01] "released" s.mu.held == 0

contract VEnvFileSink.AppendAll(s, envs)
  option safety S01
  option count log.line:mine
  requires R_log(s) && s.mu.held == 0 && mine() == 0
  keeps[S01] "so far each once" broken(ref(s.w)) || (cur(ref(s.w)) == "" && mine() == iter())
  at[S01] "the records in order, in the log" log.line : a0 == ref(s.w) && mine() < len(envs) && decodes("vsa/plugin/tfd.Envelope", a1, envs[mine()])
  at[S01] "one writer at a time" log.write : s.mu.held >= 1
  at[S01] "one writer at a time" log.flush : s.mu.held >= 1
  ensures[S01] "each once" broken(ref(s.w)) || mine() == len(envs)
  ensures[S01] "whole lines" R_log(s)
  ensures[S01] "released" s.mu.held == 0

contract VEnvFileSink.Flush(s) (err)
  option safety S01
  option count log.line:mine
  requires R_log(s) && s.mu.held == 0 && mine() == 0
  at[S01] "one writer at a time" log.flush : s.mu.held >= 1
  at[S01] "nothing is written" log.write : false
  ensures[S01] "flushed" implies(err == nil, !unflushed(ref(s.w)))
  ensures[S01] "a failure is reported" implies(err != nil, broken(ref(s.w)))
  ensures[S01] "released" s.mu.held == 0

contract VEnvFileSink.Close(s) (err)
  option safety S01
  requires R_log(s) && s.mu.held == 0
  at[S01] "nothing is written" log.write : false
  at[S01] "one writer at a time" log.flush : s.mu.held >= 1
  at[S01] "flushed before it is closed" log.close : a0 == ref(s.f) && (broken(ref(s.w)) || !unflushed(ref(s.w)))
  ensures[S01] "flushed" broken(ref(s.w)) || !unflushed(ref(s.w))
  ensures[S01] "released" s.mu.held == 0

contract ReadAllVLog(path) (out, err)
  option safety S01
  any q
  domain app("flen", path) >= 0
  at[S01] "long lines do not end the log" bufio.Scanner.Scan : ghost("$smax", ref(a0)) >= 67108864
  ensures[S01] "one record per line that holds one" implies(err == nil, len(out) == sum(kk, 0, app("flen", path), ite(decodable("vsa/plugin/tfd.Envelope", app("fline", path, kk)), 1, 0)))
  ensures[S01] "each in its place" implies(err == nil && 0 <= q && q < app("flen", path) && decodable("vsa/plugin/tfd.Envelope", app("fline", path, q)), decodes("vsa/plugin/tfd.Envelope", app("fline", path, q), out[sum(kk, 0, q, ite(decodable("vsa/plugin/tfd.Envelope", app("fline", path, kk)), 1, 0))]))

contract NewSBatchFileSink(path) (s, err)
  option safety S01
  at[S01] "the log at the path, kept and appended to" log.open : a0 == path && a1 == 1 && a2 == 0 && a3 == 0 && a4 == 1
  ensures[S01] "open on a line of its own" implies(err == nil && bapp("regular", ref(s.f)), R_log(s))
  ensures[S01] "nothing is left to flush" implies(err == nil, ref(s) != 0 && !unflushed(ref(s.w)) && !broken(ref(s.w)) && s.mu.held == 0)

contract SBatchFileSink.OnSBatches(s, b)
  option safety S01
  option count log.line:mine
  requires R_log(s) && s.mu.held == 0 && mine() == 0
  keeps[S01] "so far each once" broken(ref(s.w)) || (cur(ref(s.w)) == "" && mine() == iter())
  at[S01] "the records in order, in the log" log.line : a0 == ref(s.w) && mine() < len(b) && decodes("vsa/plugin/tfd.SBatch", a1, b[mine()])
  at[S01] "one writer at a time" log.write : s.mu.held >= 1
  at[S01] "one writer at a time" log.flush : s.mu.held >= 1
  ensures[S01] "each once" broken(ref(s.w)) || mine() == len(b)
  ensures[S01] "whole lines" R_log(s)
  ensures[S01] "released" s.mu.held == 0

contract SBatchFileSink.Flush(s) (err)
  option safety S01
  option count log.line:mine
  requires R_log(s) && s.mu.held == 0 && mine() == 0
  at[S01] "one writer at a time" log.flush : s.mu.held >= 1
  at[S01] "nothing is written" log.write : false
  ensures[S01] "flushed" implies(err == nil, !unflushed(ref(s.w)))
  ensures[S01] "a failure is reported" implies(err != nil, broken(ref(s.w)))
  ensures[S01] "released" s.mu.held == 0

contract SBatchFileSink.Close(s) (err)
  option safety S01
  requires R_log(s) && s.mu.held == 0
  at[S01] "nothing is written" log.write : false
  at[S01] "one writer at a time" log.flush : s.mu.held >= 1
  at[S01] "flushed before it is closed" log.close : a0 == ref(s.f) && (broken(ref(s.w)) || !unflushed(ref(s.w)))
  ensures[S01] "flushed" broken(ref(s.w)) || !unflushed(ref(s.w))
  ensures[S01] "released" s.mu.held == 0

contract ReadAllSLog(path) (out, err)
  option safety S01
  any q
  domain app("flen", path) >= 0
  at[S01] "long lines do not end the log" bufio.Scanner.Scan : ghost("$smax", ref(a0)) >= 67108864
  ensures[S01] "one record per line that holds one" implies(err == nil, len(out) == sum(kk, 0, app("flen", path), ite(decodable("vsa/plugin/tfd.SBatch", app("fline", path, kk)), 1, 0)))
  ensures[S01] "each in its place" implies(err == nil && 0 <= q && q < app("flen", path) && decodable("vsa/plugin/tfd.SBatch", app("fline", path, q)), decodes("vsa/plugin/tfd.SBatch", app("fline", path, q), out[sum(kk, 0, q, ite(decodable("vsa/plugin/tfd.SBatch", app("fline", path, kk)), 1, 0))]))
