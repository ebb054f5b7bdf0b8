// Simulated input and output streams with seeded delivery and failures.
#ifndef SIM_SIMSTREAM_H
#define SIM_SIMSTREAM_H
#include <istream>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <vector>
#include "core.h"

namespace sim {

// Delivers `data` in pieces of seeded size. After `end` bytes the stream ends,
// or fails if `error` is set (a throwing buffer is how libstdc++'s own file
// buffer reports a failed read: the stream then goes bad).
class InBuf : public std::streambuf {
 public:
  InBuf(Ctx& c, const std::string& data, size_t end, bool error, unsigned max_piece)
      : c_(c), data_(data), end_(end), error_(error), max_(max_piece ? max_piece : 1), pos_(0) {}
  size_t delivered() const { return pos_; }
 protected:
  int_type underflow() override {
    if (pos_ >= end_) {
      if (!error_) return traits_type::eof();
      c_.fault("input stream error");
      throw std::runtime_error("simulated input error");
    }
    size_t n = 1 + c_.choose(max_);
    if (n > end_ - pos_) n = end_ - pos_;
    piece_.assign(data_, pos_, n);
    pos_ += n;
    setg(&piece_[0], &piece_[0], &piece_[0] + piece_.size());
    return traits_type::to_int_type(piece_[0]);
  }
 private:
  Ctx& c_;
  const std::string& data_;
  size_t end_;
  bool error_;
  unsigned max_;
  size_t pos_;
  std::string piece_;
};

// Accepts `room` bytes, then fails: by refusing bytes or by throwing. `buffer`
// > 0 makes it collect that many bytes before they are handed on, so that the
// failure shows later than the write that caused it, at the latest on sync.
class OutBuf : public std::streambuf {
 public:
  enum How { kRefuse, kThrow };
  OutBuf(Ctx& c, size_t room, How how, size_t buffer) : c_(c), room_(room), how_(how), buffer_(buffer), failed_(false) {}
  std::string accepted;
  // Once it has failed it accepts `n` bytes more (a disk that was full for a while).
  void heal(size_t n) { heal_ = n; }
  bool failed() const { return failed_; }
 protected:
  bool push(const char* s, size_t n, size_t* taken) {
    size_t k = n < room_ ? n : room_;
    accepted.append(s, k);
    room_ -= k;
    *taken = k;
    if (k == n) return true;
    if (!failed_) c_.fault("output stream error");
    failed_ = true;
    if (heal_) { room_ = heal_; heal_ = 0; c_.fault("output stream works again"); }
    if (how_ == kThrow) throw std::runtime_error("simulated output error");
    return false;
  }
  bool flush_pending() {
    size_t t = 0;
    std::string p; p.swap(pending_);
    return push(p.data(), p.size(), &t);
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (!buffer_) { size_t t = 0; push(s, (size_t)n, &t); return (std::streamsize)t; }
    pending_.append(s, (size_t)n);
    if (pending_.size() >= buffer_ && !flush_pending()) return 0;
    return n;
  }
  int_type overflow(int_type ch) override {
    if (traits_type::eq_int_type(ch, traits_type::eof())) return traits_type::not_eof(ch);
    char k = traits_type::to_char_type(ch);
    return xsputn(&k, 1) == 1 ? ch : traits_type::eof();
  }
  int sync() override { return pending_.empty() || flush_pending() ? 0 : -1; }
 private:
  Ctx& c_;
  size_t room_;
  How how_;
  size_t buffer_;
  size_t heal_ = 0;
  bool failed_;
  std::string pending_;
};

}  // namespace sim
#endif
