// In-memory map with leveldb's interface.
#pragma once
#include <cstdint>
#include <map>
#include <mutex>
#include <string>
namespace leveldb {
class Slice {
 public:
  Slice() = default;
  Slice(const char* d, size_t n) : d_(d), n_(n) {}
  Slice(const std::string& s) : d_(s.data()), n_(s.size()) {}
  Slice(const char* s) : Slice(std::string_view(s)) {}
  const char* data() const { return d_; }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  std::string ToString() const { return std::string(d_, n_); }
 private:
  Slice(std::string_view v) : d_(v.data()), n_(v.size()) {}
  const char* d_ = ""; size_t n_ = 0;
};
class Status {
 public:
  Status() = default;
  static Status OK() { return {}; }
  static Status NotFound(const std::string& m) { Status s; s.ok_ = false; s.nf_ = true; s.m_ = m; return s; }
  bool ok() const { return ok_; }
  bool IsNotFound() const { return nf_; }
  std::string ToString() const { return ok_ ? "OK" : m_; }
 private:
  bool ok_ = true, nf_ = false; std::string m_;
};
enum CompressionType { kNoCompression = 0, kSnappyCompression = 1 };
struct Options { bool create_if_missing = false, error_if_exists = false, paranoid_checks = false; size_t write_buffer_size = 4 << 20; int max_open_files = 1000; size_t block_size = 4096, max_file_size = 2 << 20; CompressionType compression = kSnappyCompression; };
struct ReadOptions { bool verify_checksums = false, fill_cache = true; };
struct WriteOptions { bool sync = false; };
class DB {
 public:
  virtual ~DB() = default;
  static Status Open(const Options&, const std::string&, DB** db) { *db = new DB(); return {}; }
  virtual Status Put(const WriteOptions&, const Slice& k, const Slice& v) { std::lock_guard<std::mutex> l(mu_); m_[k.ToString()] = v.ToString(); return {}; }
  virtual Status Delete(const WriteOptions&, const Slice& k) { std::lock_guard<std::mutex> l(mu_); m_.erase(k.ToString()); return {}; }
  virtual Status Get(const ReadOptions&, const Slice& k, std::string* v) {
    std::lock_guard<std::mutex> l(mu_);
    auto it = m_.find(k.ToString());
    if (it == m_.end()) return Status::NotFound("not found");
    *v = it->second; return {};
  }
 private:
  std::mutex mu_; std::map<std::string, std::string> m_;
};
}
