// E03: block boundaries of a scan line.
#include "pbt.hpp"
#include "lidar_feature_extraction/index_range.hpp"

namespace
{
// The tests pin Boundary(j) to the even partition start + floor((end - start) * j / n) on small
// numbers; the property only needs a contiguous partition whose sizes differ by at most one.
template<class R>
void check_partition(const R & r, std::int64_t b, std::int64_t e, int n, pbt::Case & c)
{
  CHECK_EQ(r.NBlocks(), n);
  const std::int64_t len = e - b, lo = len / n, hi = (len + n - 1) / n;
  std::vector<int> js;
  if (n <= 60) {for (int j = 0; j < n; j++) {js.push_back(j);}} else {
    js = {0, n - 1};
    for (int k = 0; k < 50; k++) {js.push_back(c.below(n));}
  }
  for (int j : js) {
    const std::int64_t x = r.Begin(j), y = r.End(j);
    CHECK(y - x >= lo && y - x <= hi, << "block " << j << " is [" << x << ", " << y << ") of [" << b << ", " << e << ") in " << n);
    if (j == 0) {CHECK_EQ(x, b);} else {CHECK_EQ(static_cast<std::int64_t>(r.End(j - 1)), x, << "block " << j << " of " << n);}
    if (j == n - 1) {CHECK_EQ(y, e, << "n=" << n << " start=" << b);}
  }
  for (int j : {-1, n}) {CHECK_THROWS(r.Begin(j)); CHECK_THROWS(r.End(j));}
  const int bad = c.coin() ? n + static_cast<int>(c.below(1000000)) : -1 - static_cast<int>(c.below(1000000));
  CHECK_THROWS(r.Begin(bad)); CHECK_THROWS(r.End(bad));
}
}  // namespace

PROP(blocks_partition_the_interval, 400000)
{
  const int n = c.size(1, 60);
  const int b = c.coin() ? c.size(0, 5000) : -static_cast<int>(c.size(0, 5000));
  const int len = n + static_cast<int>(c.size(0, 4000));
  c.note() << "[" << b << ", " << b + len << ") in " << n;
  const IndexRange r(b, b + len, n);
  check_partition(r, b, b + len, n, c);
  c.nontrivial(n > 1 && len % n != 0);
  c.label("minimal length", len == n);
  c.label("large offset", b > 40 || b < -40);
}

PROP(large_intervals, 200000)
{
  const int n = c.coin() ? c.range(1, 60) : c.range(1, 1000000);
  const std::int64_t len = n + c.range(0, 1000000000);
  const std::int64_t b = c.range(-1000000000, 1000000000);
  if (b + len > 2000000000) {throw pbt::Discard{};}
  c.note() << "[" << b << ", " << b + len << ") in " << n;
  const IndexRange r(b, b + len, n);
  check_partition(r, b, b + len, n, c);
  c.nontrivial(n > 1);
}

PROP(padding_is_left_out_on_both_sides, 200000)
{
  const int n = c.size(1, 30), p = c.size(0, 50);
  const int size = 2 * p + n + static_cast<int>(c.size(0, 3000));
  c.note() << "size " << size << " blocks " << n << " padding " << p;
  const PaddedIndexRange r(size, n, p);
  check_partition(r, p, size - p, n, c);
  c.nontrivial(n > 1 && p > 0);
}

PROP(too_short_intervals_are_rejected, 100000)
{
  const int n = c.size(1, 60), b = c.range(0, 400) - 200, len = c.coin() ? n - 1 : c.range(0, n - 1) - (c.coin() ? 50 : 0);
  CHECK_THROWS(IndexRange(b, b + len, n), << b << " " << len << " " << n);
  CHECK_NO_THROW(IndexRange(b, b + n, n));
  const int p = c.range(0, 50), size = c.range(0, 2 * p + n - 1);
  c.note() << b << " " << len << " " << n << "; size " << size << " padding " << p;
  CHECK_THROWS(PaddedIndexRange(size, n, p));
  c.nontrivial(len > 0);
}

// Every small interval, exhaustively.
PROP(all_small_intervals, 25)
{
  static int done = 0;
  if (done++) {return;}
  std::uint64_t count = 0;
  for (int b = -6; b <= 40; b++) {
    for (int len = 1; len <= 50; len++) {
      for (int n = 1; n <= len; n++) {
        const IndexRange r(b, b + len, n);
        int at = b;
        for (int j = 0; j < n; j++) {
          CHECK_EQ(r.Begin(j), at, << b << " " << len << " " << n);
          at = r.End(j);
          CHECK(at - r.Begin(j) >= len / n && at - r.Begin(j) <= (len + n - 1) / n, << b << " " << len << " " << n << " block " << j);
        }
        CHECK_EQ(at, b + len, << b << " " << n);
        count++;
      }
    }
  }
  c.note() << count << " intervals";
  c.nontrivial();
}
