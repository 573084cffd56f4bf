// Values, types and configurations written and read back (C08).
#include <set>

#include "google/protobuf/json/json.h"
#include "mpc.h"

#include "libspu/core/config.h"
#include "libspu/core/value.h"
#include "libspu/mpc/aby3/type.h"
#include "libspu/mpc/experimental/swift/type.h"
#include "libspu/mpc/securenn/type.h"
#include "libspu/mpc/semi2k/type.h"
#include "libspu/mpc/spdz2k/type.h"
#include "libspu/spu.h"
#include "libspu/spu.pb.h"

using namespace drv;
using spu::Type;
using spu::ValueProto;
namespace pb = spu::pb;
namespace gp = google::protobuf;

// ---- types ----------------------------------------------------------------------------------
struct Desc { std::string id, field, back; int64_t bits = 0, nbits = -1, owner = -2; Type t; };
static Desc RType() {
  using namespace spu::mpc;
  std::vector<std::pair<const char*, FieldType>> fs = {{"FM32", FieldType::FM32}, {"FM64", FieldType::FM64}, {"FM128", FieldType::FM128}};
  auto [fn, f] = Pick(fs);
  int64_t bits = static_cast<int64_t>(spu::SizeOf(f)) * 8;
  int64_t nb = RI(0, bits);
  std::vector<std::tuple<const char*, spu::PtType, int64_t>> pts = {
      {"PT_I8", spu::PT_I8, 8}, {"PT_U8", spu::PT_U8, 8}, {"PT_I16", spu::PT_I16, 16}, {"PT_U16", spu::PT_U16, 16}, {"PT_I32", spu::PT_I32, 32}, {"PT_U32", spu::PT_U32, 32},
      {"PT_I64", spu::PT_I64, 64}, {"PT_U64", spu::PT_U64, 64}, {"PT_I128", spu::PT_I128, 128}, {"PT_U128", spu::PT_U128, 128}, {"PT_I1", spu::PT_I1, 8},
      {"PT_F16", spu::PT_F16, 16}, {"PT_F32", spu::PT_F32, 32}, {"PT_F64", spu::PT_F64, 64}, {"PT_CF32", spu::PT_CF32, 64}, {"PT_CF64", spu::PT_CF64, 128}};
  Desc d;
  d.field = fn; d.bits = bits;
  switch (R(21)) {
    case 0: d.id = "Void"; break;
    case 1: { auto [n, p, b] = Pick(pts); d.id = "Plaintext"; d.back = n; d.bits = b; d.t = spu::makePtType(p); break; }
    case 2: d.id = "Ring"; d.t = spu::makeType<spu::RingTy>(f); break;
    case 3: d.id = "Gfmp"; d.t = spu::makeType<spu::GfmpTy>(f); break;
    case 4: d.id = "Pub2k"; d.t = spu::makeType<Pub2kTy>(f); break;
    case 5: d.id = "Priv2k"; d.owner = RI(-1, 12); d.t = spu::makeType<Priv2kTy>(f, d.owner); break;
    case 6: d.id = "semi2k.AShr"; d.t = spu::makeType<semi2k::AShrTy>(f); break;
    case 7: d.id = "semi2k.BShr"; d.nbits = nb; d.t = spu::makeType<semi2k::BShrTy>(f, nb); break;
    case 8: d.id = "semi2k.PShr"; d.field = "FM64"; d.bits = 64; d.t = spu::makeType<semi2k::PShrTy>(); break;
    case 9: d.id = "aby3.AShr"; d.t = spu::makeType<aby3::AShrTy>(f); break;
    case 10: { auto [n, p, b] = pts[R(10)]; d.id = "aby3.BShr"; d.back = n; d.bits = b; d.nbits = RI(0, b); d.t = spu::makeType<aby3::BShrTy>(p, d.nbits); break; }
    case 11: d.id = "aby3.OShr"; d.t = spu::makeType<aby3::OShrTy>(f); break;
    case 12: d.id = "aby3.OPShr"; d.t = spu::makeType<aby3::OPShrTy>(f); break;
    case 13: d.id = "aby3.PShr"; d.field = "FM64"; d.bits = 64; d.t = spu::makeType<aby3::PShrTy>(); break;
    case 14: d.id = "securenn.AShr"; d.t = spu::makeType<securenn::AShrTy>(f); break;
    case 15: d.id = "securenn.BShr"; d.nbits = nb; d.t = spu::makeType<securenn::BShrTy>(f, nb); break;
    case 16: d.id = "swift.AShr"; d.t = spu::makeType<swift::AShrTy>(f); break;
    case 17: d.id = "swift.BShr"; d.nbits = nb; d.t = spu::makeType<swift::BShrTy>(f, nb); break;
    case 18: d.id = "swift.PShr"; d.field = "FM64"; d.bits = 64; d.t = spu::makeType<swift::PShrTy>(); break;
    case 19: d.id = "spdz2k.AShr"; d.t = spu::makeType<spdz2k::AShrTy>(f); break;
    default: { auto [n, p, b] = pts[R(10)]; d.id = "spdz2k.BShr"; d.back = n; d.nbits = RI(0, b); d.t = spu::makeType<spdz2k::BShrTy>(p, d.nbits, f); }
  }
  return d;
}
static std::string JD(const Desc& d) {
  return "{\"id\":\"" + d.id + "\",\"field\":\"" + d.field + "\",\"back\":\"" + d.back + "\",\"bits\":" + std::to_string(d.bits) + ",\"nbits\":" + std::to_string(d.nbits) + ",\"owner\":" + std::to_string(d.owner) + "}";
}
template <class F> static bool Threw(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }

static void Types(int reps) {
  for (int i = 0; i < reps; ++i) {
    auto d = RType();
    auto s = d.t.toString();
    bool threw = false;
    Type back;
    try { back = Type::fromString(s); } catch (const std::exception&) { threw = true; }
    J("type").raw("d", JD(d)).str("text", s).i("size", static_cast<int64_t>(d.t.size())).b("threw", threw).str("text2", back.toString())
        .i("size2", static_cast<int64_t>(back.size())).b("eq", back == d.t)
        .b("pub", d.t.isa<spu::Public>()).b("sec", d.t.isa<spu::Secret>()).b("priv", d.t.isa<spu::Private>())
        .b("a", d.t.isa<spu::AShare>()).b("bs", d.t.isa<spu::BShare>()).b("p", d.t.isa<spu::PShare>());
    auto e = Coin(30) ? d : RType();
    if (Coin() && e.id == d.id) e = RType();
    for (int q = 0; q < 20 && e.id != d.id; ++q) e = RType();
    J("tyeq").raw("d", JD(d)).raw("e", JD(e)).b("eq", d.t == e.t).b("ne", d.t != e.t);
  }
  std::vector<std::string> bad = {"nosuch<FM64>", "Ring<FM999>", "Ring<>", "<FM64>", "Plaintext<PT_X9>", "semi2k.BShr<FM77,3>", "aby3.BShr<PT_ZZ,3>", "Priv2k<FMX,1>", "Ring<FM64", "aby3.ashr<FM64>", "Gfmp<FMQ,61>"};
  for (auto& b : bad) J("badtype").str("text", b).b("threw", Threw([&] { (void)Type::fromString(b); }));
}

// ---- values ---------------------------------------------------------------------------------
static std::string JBytes(const std::string& s) { return Bytes(s.data(), s.size()); }
static std::string JProto(const ValueProto& p) {
  std::string s = "{\"dt\":" + std::to_string(static_cast<int>(p.meta.data_type())) + ",\"vis\":" + std::to_string(static_cast<int>(p.meta.visibility())) +
                  ",\"cx\":" + (p.meta.is_complex() ? "true" : "false") + ",\"ty\":" + J::esc(p.meta.storage_type()) + ",\"sh\":[";
  for (int i = 0; i < p.meta.shape().dims_size(); ++i) { if (i) s += ','; s += std::to_string(p.meta.shape().dims(i)); }
  s += "],\"chunks\":[";
  bool f = true;
  for (auto& c : p.chunks) {
    if (!f) s += ','; f = false;
    s += "[" + std::to_string(c.total_bytes()) + "," + std::to_string(c.chunk_offset()) + "," + JBytes(c.content()) + "]";
  }
  return s + "]}";
}
static int VisOf(const Type& t) { return t.isa<spu::Secret>() ? 1 : t.isa<spu::Public>() ? 2 : t.isa<spu::Private>() ? 3 : 0; }
static void JValue(J& j, const char* pre, const Value& v) {
  std::string p(pre);
  j.str((p + "ty").c_str(), v.storage_type().toString()).i((p + "dt").c_str(), v.dtype()).ints((p + "sh").c_str(), v.shape()).raw((p + "re").c_str(), Elems(v.data()));
  j.b((p + "cx").c_str(), v.isComplex()).raw((p + "im").c_str(), v.isComplex() ? Elems(*v.imag()) : "[]").i((p + "vis").c_str(), static_cast<int>(v.vtype())).i((p + "es").c_str(), static_cast<int64_t>(v.storage_type().size()));
}
static void Values(int reps) {
  for (int i = 0; i < reps; ++i) {
    NewCase();
    Desc d;
    do d = RType(); while (d.t.size() == 0 || d.t.size() > 64 || VisOf(d.t) == 0 || d.id == "Void");
    auto sh = RShape(3, 3, 8);
    auto lay = [&] {
      auto a = RLayout(d.t, sh, 128, false, 35);
      if (Coin(40)) for (int64_t q = 0; q < a.buf()->size(); ++q) a.buf()->data<u8>()[q] = static_cast<u8>(rng());
      return a;
    };
    auto dt = static_cast<spu::DataType>(RI(1, 12));
    Value v = Coin(25) ? Value(lay(), lay(), dt) : Value(lay(), dt);
    size_t total = static_cast<size_t>(v.numel()) * v.elsize();
    size_t max = Coin(30) ? 1 + R(4) : Coin(50) ? 1 + R(total + 8) : (1 + R(4)) * v.elsize();
    if (Coin(10)) max = total ? total : 1;
    auto p = v.toProto(max);
    { J j("cut"); JValue(j, "", v); j.i("max", static_cast<int64_t>(max)).i("count", static_cast<int64_t>(v.chunksCount(max))).raw("p", JProto(p)); }
    for (int t = 0; t < 5; ++t) {
      auto q = p;
      std::string how = "none";
      size_t n = q.chunks.size();
      size_t k = R(n);
      if (t > 0) switch (R(16)) {
        case 0: if (n) { q.chunks.erase(q.chunks.begin() + static_cast<long>(k)); how = "drop"; } break;
        case 1: if (n) { q.chunks.insert(q.chunks.begin() + static_cast<long>(R(n + 1)), q.chunks[k]); how = "dup"; } break;
        case 2: case 3: if (n) { if (v.isComplex()) { std::shuffle(q.chunks.begin(), q.chunks.begin() + static_cast<long>(n / 2), rng); std::shuffle(q.chunks.begin() + static_cast<long>(n / 2), q.chunks.end(), rng); } else std::shuffle(q.chunks.begin(), q.chunks.end(), rng); how = "reorder"; } break;
        case 4: if (n) { auto c = q.chunks[k].content(); c.resize(c.size() - 1); q.chunks[k].set_content(c); how = "cutbyte"; } break;
        case 5: if (n) { auto c = q.chunks[k].content(); c += std::string(1 + R(20), 'x'); q.chunks[k].set_content(c); how = "addbytes"; } break;
        case 6: if (n) { q.chunks[k].set_chunk_offset(q.chunks[k].chunk_offset() + 1 + R(3)); how = "offset"; } break;
        case 7: if (n) { q.chunks[k].set_total_bytes(q.chunks[k].total_bytes() + 1 + R(9)); how = "total"; } break;
        case 8: { for (auto& c : q.chunks) c.set_total_bytes(c.total_bytes() + d.t.size()); how = "totals"; break; }
        case 9: { pb::ValueChunkProto c; c.set_total_bytes(total); c.set_chunk_offset(total); c.set_content(std::string(1 + R(9), 'y')); q.chunks.push_back(c); how = "surplus"; break; }
        case 10: { q.meta.mutable_shape()->add_dims(RI(0, 2)); how = "shape+"; break; }
        case 11: if (sh.size() > 0) { auto x = R(sh.size()); q.meta.mutable_shape()->set_dims(static_cast<int>(x), sh[x] + 1); how = "shape"; } break;
        case 12: { q.meta.set_visibility(static_cast<pb::Visibility>(RI(0, 3))); how = "vis"; break; }
        case 13: { q.meta.set_data_type(static_cast<pb::DataType>(RI(0, 12))); how = "dtype"; break; }
        case 14: { Desc e; do e = RType(); while (e.t.size() == 0); q.meta.set_storage_type(e.t.toString()); how = "type"; d.t.size(); 
                   // the size of the named type, for the specification
                   bool threw = false; Value r; try { r = Value::fromProto(q); } catch (const std::exception&) { threw = true; }
                   J j("join"); j.str("how", how).raw("p", JProto(q)).b("threw", threw).i("es0", static_cast<int64_t>(e.t.size())).i("vis0", VisOf(e.t)); JValue(j, "", threw ? v : r); continue; }
        case 15: if (n) { // two chunks exchanged contents of different length, or split differently
                   auto c = q.chunks[k]; if (c.content().size() >= 2) { size_t cut = 1 + R(c.content().size() - 1); pb::ValueChunkProto e = c; e.set_chunk_offset(c.chunk_offset() + cut); e.set_content(c.content().substr(cut)); q.chunks[k].set_content(c.content().substr(0, cut)); if (!v.isComplex()) { q.chunks.push_back(e); how = "split"; } else { q.chunks[k] = c; } } }
                 break;
      }
      bool threw = false;
      Value r;
      try { r = Value::fromProto(q); } catch (const std::exception&) { threw = true; }
      J j("join");
      j.str("how", how).raw("p", JProto(q)).b("threw", threw).i("es0", static_cast<int64_t>(d.t.size())).i("vis0", VisOf(d.t));
      JValue(j, "", threw ? v : r);
    }
  }
}

// ---- configurations -------------------------------------------------------------------------
using Flat = std::map<std::string, std::string>;
static void FlatPb(const gp::Message& m, const std::string& pre, Flat& out) {
  auto* d = m.GetDescriptor(); auto* r = m.GetReflection();
  for (int i = 0; i < d->field_count(); ++i) {
    auto* f = d->field(i);
    std::string n = pre + std::string(f->name());
    switch (f->cpp_type()) {
      case gp::FieldDescriptor::CPPTYPE_MESSAGE: if (r->HasField(m, f)) { out[n] = "set"; FlatPb(r->GetMessage(m, f), n + ".", out); } break;
      case gp::FieldDescriptor::CPPTYPE_BOOL: out[n] = r->GetBool(m, f) ? "1" : "0"; break;
      case gp::FieldDescriptor::CPPTYPE_STRING: out[n] = r->GetString(m, f); break;
      case gp::FieldDescriptor::CPPTYPE_INT32: out[n] = std::to_string(r->GetInt32(m, f)); break;
      case gp::FieldDescriptor::CPPTYPE_INT64: out[n] = std::to_string(r->GetInt64(m, f)); break;
      case gp::FieldDescriptor::CPPTYPE_UINT32: out[n] = std::to_string(r->GetUInt32(m, f)); break;
      case gp::FieldDescriptor::CPPTYPE_UINT64: out[n] = std::to_string(r->GetUInt64(m, f)); break;
      case gp::FieldDescriptor::CPPTYPE_ENUM: out[n] = std::to_string(r->GetEnumValue(m, f)); break;
      default: abort();
    }
  }
}
static std::string RText() { std::string s; for (u64 n = R(6); n-- > 0;) s += static_cast<char>('a' + R(26)); return s; }
static void RandPb(gp::Message& m, int pct) {
  auto* d = m.GetDescriptor(); auto* r = m.GetReflection();
  for (int i = 0; i < d->field_count(); ++i) {
    auto* f = d->field(i);
    if (!Coin(pct)) continue;
    switch (f->cpp_type()) {
      case gp::FieldDescriptor::CPPTYPE_MESSAGE: RandPb(*r->MutableMessage(&m, f), pct); break;
      case gp::FieldDescriptor::CPPTYPE_BOOL: r->SetBool(&m, f, Coin()); break;
      case gp::FieldDescriptor::CPPTYPE_STRING: r->SetString(&m, f, RText()); break;
      case gp::FieldDescriptor::CPPTYPE_INT32: r->SetInt32(&m, f, static_cast<int32_t>(RI(-3, 9))); break;
      case gp::FieldDescriptor::CPPTYPE_INT64: r->SetInt64(&m, f, Coin(20) ? static_cast<int64_t>(rng()) : RI(0, 40)); break;
      case gp::FieldDescriptor::CPPTYPE_UINT32: r->SetUInt32(&m, f, static_cast<uint32_t>(Coin(20) ? rng() : R(40))); break;
      case gp::FieldDescriptor::CPPTYPE_UINT64: r->SetUInt64(&m, f, Coin(20) ? rng() : R(40)); break;
      case gp::FieldDescriptor::CPPTYPE_ENUM: r->SetEnumValue(&m, f, f->enum_type()->value(static_cast<int>(R(static_cast<u64>(f->enum_type()->value_count()))))->number()); break;
      default: abort();
    }
  }
}
#define SCALARS(X) X(protocol) X(field) X(fxp_fraction_bits) X(max_concurrency) X(enable_action_trace) X(enable_type_checker) X(enable_pphlo_trace) \
  X(enable_runtime_snapshot) X(enable_pphlo_profile) X(enable_hal_profile) X(public_random_seed) X(share_max_chunk_size) X(sort_method) X(quick_sort_threshold) \
  X(fxp_div_goldschmidt_iters) X(fxp_exp_mode) X(fxp_exp_iters) X(fxp_log_mode) X(fxp_log_iters) X(fxp_log_orders) X(sigmoid_mode) X(enable_lower_accuracy_rsqrt) \
  X(sine_cosine_iters) X(beaver_type) X(trunc_allow_msb_error) X(experimental_disable_mmul_split) X(experimental_enable_inter_op_par) X(experimental_enable_intra_op_par) \
  X(experimental_disable_vectorization) X(experimental_inter_op_concurrency) X(experimental_enable_colocated_optimization) X(experimental_enable_exp_prime) \
  X(experimental_exp_prime_offset) X(experimental_exp_prime_disable_lower_bound) X(experimental_exp_prime_enable_upper_bound)
static Flat FlatCfg(const RuntimeConfig& c) {
  Flat o;
#define X(n) o[#n] = std::to_string(c.n);
  SCALARS(X)
#undef X
  o["snapshot_dump_dir"] = c.snapshot_dump_dir;
  if (c.ttp_beaver_config) {
    auto& t = *c.ttp_beaver_config;
    o["ttp_beaver_config"] = "set";
    o["ttp_beaver_config.server_host"] = t.server_host; o["ttp_beaver_config.adjust_rank"] = std::to_string(t.adjust_rank);
    o["ttp_beaver_config.asym_crypto_schema"] = t.asym_crypto_schema; o["ttp_beaver_config.server_public_key"] = t.server_public_key;
    o["ttp_beaver_config.transport_protocol"] = t.transport_protocol;
    if (t.ssl_config) {
      auto& s = *t.ssl_config;
      o["ttp_beaver_config.ssl_config"] = "set";
      o["ttp_beaver_config.ssl_config.certificate"] = s.certificate; o["ttp_beaver_config.ssl_config.private_key"] = s.private_key;
      o["ttp_beaver_config.ssl_config.ca_file_path"] = s.ca_file_path; o["ttp_beaver_config.ssl_config.verify_depth"] = std::to_string(s.verify_depth);
    }
  }
  o["cheetah_2pc_config.disable_matmul_pack"] = std::to_string(c.cheetah_2pc_config.disable_matmul_pack);
  o["cheetah_2pc_config.enable_mul_lsb_error"] = std::to_string(c.cheetah_2pc_config.enable_mul_lsb_error);
  o["cheetah_2pc_config.ot_kind"] = std::to_string(static_cast<int>(c.cheetah_2pc_config.ot_kind));
  return o;
}
static std::string JF(const Flat& f) {
  std::string s = "{";
  bool first = true;
  for (auto& [k, v] : f) { if (!first) s += ','; first = false; s += J::esc(k) + ":" + J::esc(v); }
  return s + "}";
}
static Flat FlatP(const gp::Message& m) { Flat f; FlatPb(m, "", f); return f; }

template <class C, class P, class F> static void Other(const char* kind, F flat) {
  P p; RandPb(p, 70);
  C c;
  bool ok = c.ParseFromString(p.SerializeAsString());
  P back; back.ParseFromString(c.SerializeAsString());
  J("other").str("k", kind).b("ok", ok).raw("a", JF(FlatP(p))).raw("b", JF(flat(c))).raw("a2", JF(FlatP(back)));
}

static void Configs(int reps) {
  for (int i = 0; i < reps; ++i) {
    NewCase();
    pb::RuntimeConfig p;
    RandPb(p, static_cast<int>(R(4)) * 30 + 5);
    RuntimeConfig c(p);
    J("frompb").raw("a", JF(FlatP(p))).raw("b", JF(FlatCfg(c)));
    J("topb").raw("a", JF(FlatCfg(c))).raw("b", JF(FlatP(c.ToProto())));
    RuntimeConfig used;
    { pb::RuntimeConfig o; RandPb(o, 80); used = RuntimeConfig(o); }
    bool ok = used.ParseFromString(c.SerializeAsString());
    J("cfgcopy").str("via", "bytes").b("ok", ok).raw("a", JF(FlatCfg(c))).raw("b", JF(FlatCfg(used)));
    std::string js;
    if (!gp::json::MessageToJsonString(c.ToProto(), &js).ok()) abort();
    RuntimeConfig j2;
    ok = j2.ParseFromJsonString(js);
    J("cfgcopy").str("via", "json").b("ok", ok).raw("a", JF(FlatCfg(c))).raw("b", JF(FlatCfg(j2)));
    auto cp = c;
    J("cfgcopy").str("via", "copy").b("ok", true).raw("a", JF(FlatCfg(c))).raw("b", JF(FlatCfg(cp)));
    J("bad").b("ok", RuntimeConfig().ParseFromJsonString("{\"protocol\":") || RuntimeConfig().ParseFromString("\xff\xff\xff"));
    bool threw = false;
    RuntimeConfig full;
    try { full = spu::makeFullRuntimeConfig(c); } catch (const std::exception&) { threw = true; }
    J("populate").raw("a", JF(FlatCfg(c))).b("threw", threw).raw("b", JF(FlatCfg(full))).i("cores", yacl::get_num_threads());
    std::vector<std::string> lines;
    { std::string s = c.DumpToString(), cur; for (char ch : s) { if (ch == '\n') { if (!cur.empty()) lines.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) lines.push_back(cur); }
    J("dump").raw("a", JF(FlatCfg(c))).strs("lines", lines);
    Other<spu::CompilerOptions, pb::CompilerOptions>("options", [](const spu::CompilerOptions& o) {
      Flat f;
#define X(n) f[#n] = std::to_string(o.n);
      X(enable_pretty_print) X(xla_pp_kind) X(disable_sqrt_plus_epsilon_rewrite) X(disable_div_sqrt_rewrite) X(disable_reduce_truncation_optimization)
      X(disable_maxpooling_optimization) X(disallow_mix_types_opts) X(disable_select_optimization) X(enable_optimize_denominator_with_broadcast)
      X(disable_deallocation_insertion) X(disable_partial_sort_optimization)
#undef X
      f["pretty_print_dump_dir"] = o.pretty_print_dump_dir;
      return f;
    });
    spu::ExecutableProto e(RText(), {RText(), RText()}, {RText()}, RText());
    if (Coin()) e.input_names.clear();
    spu::ExecutableProto e2; e2.input_names = {"old"};
    ok = e2.ParseFromString(e.SerializeAsString());
    J("exec").b("ok", ok).str("n", e.name).strs("i", e.input_names).strs("o", e.output_names).str("code", e.code).str("n2", e2.name).strs("i2", e2.input_names).strs("o2", e2.output_names).str("code2", e2.code);
    spu::ProtocolKind k = spu::PROT_INVALID;
    std::vector<std::string> names = {"PROT_INVALID", "REF2K", "SEMI2K", "ABY3", "CHEETAH", "SECURENN", "SWIFT", "aby3", "X", ""};
    auto nm = Pick(names);
    ok = spu::ParseProtocolKind(nm, &k);
    J("kind").str("n", nm).b("ok", ok).i("k", k).str("back", std::string(spu::GetProtocolKindName(k)));
  }
}

int main(int argc, char** argv) {
  Open(argc, argv);
  int scale = argc > 3 ? atoi(argv[3]) : 1;
  spu::mpc::semi2k::registerTypes(); spu::mpc::aby3::registerTypes(); spu::mpc::securenn::registerTypes(); spu::mpc::swift::registerTypes(); spu::mpc::spdz2k::registerTypes();
  NewCase();
  Types(600 * scale);
  Values(500 * scale);
  Configs(60 * scale);
  Close();
}
