// Reference model of the output of several threads to one debug object.
//
// Each statement of a thread results in zero or more writes.  A write is atomic; the text that appears on the stream only
// depends on the order of the writes of all threads.
#pragma once
#include <memory>
#include <string>
#include <vector>

namespace mt {

struct Cfg { std::string con, coff, margin, marker = ": "; unsigned indent = 0; bool always_flush = false; };

struct Msg
{
  std::string prefix, pend;
  bool cont = false, armed = true, flush = false;
  bool needs_cont = false, closed = false;
};

struct Write
{
  int tid = 0;
  std::shared_ptr<Msg> msg;
  std::string text, con, coff;
  bool request_unfinished = false, newline = false, nonewline_cf = false, flush = false;
};

// The stream.
struct Stream
{
  std::string out;      // \1 where it is flushed.
  int tid = 0;          // The thread that left a line incomplete.
  std::shared_ptr<Msg> msg;     // The continued message that is incomplete.
  std::string coff;
  void apply(Write const& w)
  {
    if (tid && tid != w.tid)
    {
      out += coff;
      if (msg) { out += "<unfinished>\n"; msg->closed = msg->needs_cont = true; }
      else out += "<no newline>\n";
    }
    Msg& m = *w.msg;
    if (m.needs_cont && !w.text.empty())
    {
      out += m.prefix + w.coff + "<continued>" + w.con + " ";
      m.needs_cont = m.closed = false;
    }
    out += w.text;
    if (w.request_unfinished && !m.closed) out += w.coff + "<unfinished>\n";
    if (w.request_unfinished) m.needs_cont = false;
    if (w.flush) out += '\1';
    m.closed = w.newline;
    if (w.newline) { tid = 0; msg = nullptr; }
    else if (!w.text.empty() || msg == w.msg) { tid = w.tid; msg = w.nonewline_cf ? nullptr : w.msg; coff = w.coff; }
    if (w.request_unfinished) m.closed = false;
  }
};

// One thread: turns statements into writes, handed to sink.
template <class Sink>
struct Thread
{
  int tid;
  std::string label;
  Cfg c;
  Sink sink;
  std::vector<std::shared_ptr<Msg>> open;
  Thread(int tid, std::string const& label, Cfg const& c, Sink sink) : tid(tid), label(label), c(c), sink(sink) { }

  void emit(std::shared_ptr<Msg> const& m, bool unf, bool newline, bool nonl, bool flush)
  {
    Write w;
    w.tid = tid; w.msg = m; w.text = m->pend; w.con = c.con; w.coff = c.coff; w.request_unfinished = unf; w.newline = newline; w.nonewline_cf = nonl; w.flush = flush;
    m->pend.clear();
    sink(w);
  }
  std::shared_ptr<Msg> start(bool cont, bool flush)
  {
    auto m = std::make_shared<Msg>();
    m->cont = cont; m->flush = flush;
    if (!open.empty())
    {
      auto t = open.back();
      if (t->cont && t->armed)
      {
        emit(t, true, true, false, false);
        t->pend = t->prefix + c.coff + "<continued>" + c.con + " ";
      }
      t->armed = false;
    }
    m->prefix = m->pend = c.con + c.margin + label + c.marker + std::string(c.indent + 4 * open.size(), ' ');
    open.push_back(m);
    return m;
  }
  template <class F>
  void message(std::string const& text, bool nonewline, bool flush, F nested)
  {
    auto m = start(false, flush);
    m->pend += text;
    nested();
    end(m, nonewline);
  }
  void message(std::string const& text, bool nonewline, bool flush) { message(text, nonewline, flush, [] { }); }
  void end(std::shared_ptr<Msg> m, bool nonewline)
  {
    if (!nonewline) m->pend += c.coff + "\n";
    open.pop_back();
    emit(m, false, !nonewline, true, m->flush || c.always_flush);
    if (!open.empty() && (m->flush || c.always_flush)) open.back()->flush = true;
  }
  void begin(std::string const& text, bool flush)
  {
    auto m = start(true, flush);
    m->pend += text;
    if (m->flush || c.always_flush) emit(m, false, false, false, true);
  }
  void cont(std::string const& text, bool flush)
  {
    auto m = open.back();
    m->flush = m->flush || flush;
    m->pend += text;
    m->armed = true;
    if (m->flush || c.always_flush) emit(m, false, false, false, true);
  }
  void finish(std::string const& text, bool nonewline, bool flush)
  {
    auto m = open.back();
    m->flush = m->flush || flush;
    m->pend += text;
    end(m, nonewline);
  }
};

} // namespace mt
