// Sequences of collectives and of messages over forked communicators (C06).
// args: out seed scale
#include <thread>

#include "drv.h"
#include "libspu/mpc/common/communicator.h"
#include "yacl/link/test_util.h"

using namespace drv;
using spu::NdArrayRef;
using spu::Shape;
using spu::mpc::Communicator;
using spu::mpc::ReduceOp;

struct Op {
  std::string op, fn, ty;
  int k = 0;
  size_t comm = 0, root = 0, src = 0, dst = 0;
  bool typed = false;
  Shape shape;
  std::vector<NdArrayRef> in;  // per party (one for messages)
  std::vector<std::string> before;
  std::vector<std::string> out;     // per party
  std::vector<std::string> shapes;
  std::vector<int64_t> lat, vol;
  std::vector<std::string> err;
};

static u128 PrimeMask(int k) { return k == 32 ? (u128(1) << 31) - 1 : k == 64 ? (u128(1) << 61) - 1 : (u128(1) << 127) - 1; }

static NdArrayRef Input(const Op& o) {
  auto f = o.k == 32 ? spu::FieldType::FM32 : o.k == 64 ? spu::FieldType::FM64 : spu::FieldType::FM128;
  if (o.ty == "gfmp") {
    auto a = RLayout(spu::makeType<spu::GfmpTy>(f), o.shape, o.k, true, 30);
    u128 p = PrimeMask(o.k);
    for (int64_t i = 0; i < Numel(a); ++i) {
      u128 v = R128() % p;
      if (Coin(30)) v = Pick(std::vector<u128>{0, 1, p - 1, p - 2, p / 2, p / 2 + 1});
      memcpy(const_cast<u8*>(ElemPtr(a, i)), &v, a.elsize());
    }
    return a;
  }
  return RLayout(spu::makeType<spu::RingTy>(f), o.shape, o.k, false, 30);
}
template <class T> static std::vector<T> Flat(const NdArrayRef& a) {
  std::vector<T> v(static_cast<size_t>(Numel(a)));
  for (size_t i = 0; i < v.size(); ++i) memcpy(&v[i], ElemPtr(a, static_cast<int64_t>(i)), sizeof(T));
  return v;
}
template <class T> static std::string WordsOf(const std::vector<T>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += Bytes(&v[i], sizeof(T)); }
  return s + "]";
}
static std::string ShapeOf(const NdArrayRef& a) {
  std::string s = "[";
  for (size_t i = 0; i < a.shape().size(); ++i) { if (i) s += ','; s += std::to_string(a.shape()[i]); }
  return s + "]";
}

// what one party does; returns the elements it got
template <class T>
static std::string DoTyped(Communicator& c, size_t me, Op& o) {
  auto v = Flat<T>(o.in[o.in.size() == 1 ? 0 : me]);
  absl::Span<const T> sp(v.data(), v.size());
  std::string r = "[]";
  if (o.op == "allreduce") {
    auto x = o.fn == "add" ? c.allReduce<T, std::plus>(sp, "t") : c.allReduce<T, std::bit_xor>(sp, "t");
    r = WordsOf(x);
  } else if (o.op == "rotate") r = WordsOf(c.rotate<T>(sp, "t"));
  else if (o.op == "broadcast") r = WordsOf(c.bcast<T>(sp, o.root, "t"));
  else if (o.op == "gather") {
    auto g = c.gather<T>(sp, o.root, "t");
    r = "[";
    if (me == o.root) for (size_t i = 0; i < g.size(); ++i) { if (i) r += ','; r += WordsOf(g[i]); }
    r += "]";
  } else if (o.op == "send") { if (me == o.src) c.sendAsync<T>(o.dst, sp, "t"); }
  else if (o.op == "recv") { if (me == o.dst) r = WordsOf(c.recv<T>(o.src, "t")); }
  return r;
}
static std::string DoArray(Communicator& c, size_t me, Op& o) {
  auto in = o.in.empty() ? NdArrayRef() : o.in[o.in.size() == 1 ? 0 : me];
  auto rop = o.fn == "add" ? ReduceOp::ADD : ReduceOp::XOR;
  NdArrayRef x;
  std::string r = "[]";
  if (o.op == "allreduce") x = c.allReduce(rop, in, "t");
  else if (o.op == "reduce") { x = c.reduce(rop, in, o.root, "t"); if (me != o.root) return "[]"; }
  else if (o.op == "rotate") x = c.rotate(in, "t");
  else if (o.op == "broadcast") x = c.broadcast(in, o.root, in.eltype(), in.shape(), "t");
  else if (o.op == "gather") {
    auto g = c.gather(in, o.root, "t");
    r = "[";
    if (me == o.root) for (size_t i = 0; i < g.size(); ++i) {
      if (i) r += ',';
      r += Elems(g[i]);
      o.shapes[me] = ShapeOf(g[i]);
    }
    return r + "]";
  } else if (o.op == "send") { if (me == o.src) c.sendAsync(o.dst, in, "t"); return r; }
  else if (o.op == "recv") {
    if (me != o.dst) return r;
    auto f = o.k == 32 ? spu::FieldType::FM32 : o.k == 64 ? spu::FieldType::FM64 : spu::FieldType::FM128;
    x = c.recv(o.src, spu::makeType<spu::RingTy>(f), "t");
  }
  if (!(x.eltype() == (o.op == "recv" ? x.eltype() : in.eltype()))) throw std::runtime_error("element type");
  o.shapes[me] = ShapeOf(x);
  return Elems(x);
}

int main(int argc, char** argv) {
  Open(argc, argv);
  int64_t scale = argc > 3 ? atoll(argv[3]) : 4;
  for (int64_t round = 0; round < 40 * scale; ++round) {
    NewCase();
    size_t n = static_cast<size_t>(RI(2, 5));
    if (round % 13 == 0) n = 1;
    auto links = yacl::link::shim::MakeWorld("c" + std::to_string(round), n);
    // script
    std::vector<Op> ops;
    std::vector<std::vector<Op>> pend;  // messages on their way
    size_t comms = 1;
    int len = static_cast<int>(RI(4, 14));
    auto pick_ty = [&](Op& o, bool msg) {
      o.typed = Coin(35);
      o.k = o.typed ? Pick(std::vector<int>{8, 16, 32, 64, 128}) : Pick(std::vector<int>{32, 64, 128});
      o.ty = !o.typed && !msg && Coin(30) ? "gfmp" : "ring";
      o.shape = RShape(3, 4, 4);
      if (o.typed || Coin(4)) o.shape = {RI(0, 9)};
      if (Coin(3)) o.shape = {RI(900, 1500)};
    };
    auto recv_of = [&](size_t j) {
      Op o = pend[j][0];
      pend[j].erase(pend[j].begin());
      if (pend[j].empty()) pend.erase(pend.begin() + static_cast<int64_t>(j));
      o.op = "recv";
      o.in.clear();
      if (o.typed) o.in.push_back(NdArrayRef(spu::makeType<spu::RingTy>(spu::FieldType::FM64), Shape{0}));
      ops.push_back(o);
    };
    auto input = [&](Op& o) {
      if (!o.typed) return Input(o);
      Op t = o; t.k = std::max(o.k, 32);
      // elements of narrow types come from the low bytes
      return Input(t);
    };
    for (int i = 0; i < len; ++i) {
      Op o;
      o.comm = R(comms);
      int what = static_cast<int>(R(12));
      if (what == 0 && comms < 4) { o.op = "fork"; ops.push_back(o); ++comms; continue; }
      if (what <= 3 && n > 1) {
        o.op = "send";
        o.src = R(n);
        o.dst = (o.src + 1 + R(n - 1)) % n;
        pick_ty(o, true);
        o.in = {input(o)};
        ops.push_back(o);
        bool found = false;
        for (auto& q : pend) if (q[0].comm == o.comm && q[0].src == o.src && q[0].dst == o.dst) { q.push_back(o); found = true; }
        if (!found) pend.push_back({o});
        continue;
      }
      if (what <= 5 && !pend.empty()) { recv_of(R(pend.size())); continue; }
      // a collective needs empty channels on its communicator
      for (size_t j = pend.size(); j-- > 0;) while (j < pend.size() && pend[j][0].comm == o.comm) recv_of(j);
      o.op = Pick(std::vector<std::string>{"allreduce", "reduce", "rotate", "broadcast", "gather", "allreduce"});
      o.fn = Coin() ? "add" : "xor";
      o.root = R(n);
      pick_ty(o, false);
      if (o.op == "reduce" && o.typed) { o.typed = false; o.k = 64; o.ty = "ring"; }
      if (o.op == "rotate" && n == 1) o.op = "gather";
      if (o.ty == "gfmp") o.fn = "add";
      for (size_t r = 0; r < n; ++r) o.in.push_back(input(o));
      if (o.typed && o.k == 16) o.k = 32;
      ops.push_back(o);
    }
    while (!pend.empty()) recv_of(R(pend.size()));
    for (auto& o : ops) {
      o.out.assign(n, "[]"); o.shapes.assign(n, "[]"); o.lat.assign(n, 0); o.vol.assign(n, 0); o.err.assign(n, "");
      for (auto& a : o.in) o.before.push_back(Whole(a));
    }
    std::vector<std::thread> ts;
    for (size_t me = 0; me < n; ++me)
      ts.emplace_back([&, me] {
        std::vector<std::unique_ptr<Communicator>> cs;
        cs.push_back(std::make_unique<Communicator>(links[me]));
        for (auto& o : ops) {
          try {
            if (o.op == "fork") {
              auto s = cs[o.comm]->fork();
              cs.emplace_back(dynamic_cast<Communicator*>(s.release()));
              auto st = cs.back()->getStats();
              o.lat[me] = static_cast<int64_t>(st.latency); o.vol[me] = static_cast<int64_t>(st.comm);
              continue;
            }
            auto& c = *cs[o.comm];
            o.out[me] = !o.typed ? DoArray(c, me, o)
                        : o.k == 8 ? DoTyped<u8>(c, me, o) : o.k == 16 ? DoTyped<uint16_t>(c, me, o) : o.k == 32 ? DoTyped<uint32_t>(c, me, o)
                        : o.k == 64 ? DoTyped<u64>(c, me, o) : DoTyped<u128>(c, me, o);
            auto st = c.getStats();
            o.lat[me] = static_cast<int64_t>(st.latency); o.vol[me] = static_cast<int64_t>(st.comm);
          } catch (const std::exception& e) {
            o.err[me] = e.what();
            yacl::link::shim::Close(links[me]);
            return;
          }
        }
      });
    for (auto& t : ts) t.join();
    J("start").i("n", static_cast<int64_t>(n));
    for (auto& o : ops) {
      J e(o.op.c_str());
      bool ok = true, same = true;
      for (auto& x : o.err) ok = ok && x.empty();
      for (size_t i = 0; i < o.in.size(); ++i) same = same && Whole(o.in[i]) == o.before[i];
      e.str("fn", o.fn).str("ty", o.ty).i("es", o.k / 8).i("comm", static_cast<int64_t>(o.comm)).i("root", static_cast<int64_t>(o.root) + 1);
      e.i("src", static_cast<int64_t>(o.src) + 1).i("dst", static_cast<int64_t>(o.dst) + 1).b("typed", o.typed).b("ok", ok).b("same", same);
      e.ints("shape", o.shape);
      std::vector<std::string> ins;
      for (auto& a : o.in) {
        if (!o.typed) { ins.push_back(Elems(a)); continue; }
        ins.push_back(o.k == 8 ? WordsOf(Flat<u8>(a)) : o.k == 16 ? WordsOf(Flat<uint16_t>(a)) : o.k == 32 ? WordsOf(Flat<uint32_t>(a)) : o.k == 64 ? WordsOf(Flat<u64>(a)) : WordsOf(Flat<u128>(a)));
      }
      e.words("in", ins).words("out", o.out).words("shapes", o.shapes).ints("lat", o.lat).ints("vol", o.vol);
    }
    J("stop");
  }
  Close();
}
