"""Third batch."""
from bugs import bug, G, U, T, B, TAB, RFT
I = 'src/io/input.cc'

bug('C27-short-read', 'C27',
    'bit input arriving in pieces (from a live source)',
    'the first short read is taken for the end of the input',
    [(I, '''  int chr = 0;
  while (chr != '0' && chr != '1' && chr != EOF) {
    chr = std::getchar();
''', '''  // Much faster than one getchar() per bit
  static std::array<char, 4096> buffer;
  static std::size_t pos = 0, size = buffer.size();
  int chr = 0;
  while (chr != '0' && chr != '1' && chr != EOF) {
    if (pos % buffer.size() == 0 && size == buffer.size()) {
      const auto num_read = sf_count_t(::read(::fileno(stdin), buffer.data(), buffer.size()));
      size                = num_read > 0 ? std::size_t(num_read) : 0;
      pos                 = 0;
    }
    chr = pos < size ? static_cast<unsigned char>(buffer[pos++]) : EOF;
'''),
     (I, '#include <stdio.h>\n', '#include <stdio.h>\n#include <unistd.h>\n')],
    '''
import time
d = ''.join(bits(g(1, 'A', 0, 0x1234, i)) for i in range(30)).encode()
p = subprocess.Popen([EXE, '-b', '-x'], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
try:
    for i in range(0, len(d), 1000):
        p.stdin.write(d[i:i + 1000])
        p.stdin.flush()
        time.sleep(.05)
    p.stdin.close()
except BrokenPipeError:
    pass
a = p.stdout.read()
b = run(['-b', '-x'], d).stdout
check(a == b and a.count(b'\\n') >= 28, '%d lines, %d from a file' % (a.count(b'\\n'), b.count(b'\\n')))
''')

bug('C27-garbage-average', 'C27',
    'block error rate of a multiplex signal (its decoder is on the heap) during the first 12 groups, memory not zero',
    'the average starts from whatever was in memory',
    [('src/util.hh', '''  RunningAverage() {
    std::fill(history_.begin(), history_.end(), T{0});
  }
  void push(T value) {
    sum_ -= history_[ptr_];''', '''  RunningAverage() {}
  void push(T value) {
    sum_ -= history_[ptr_];'''),
     ('src/util.hh', '''  std::array<T, N> history_{};
  T sum_{};
  std::size_t ptr_{};
};

std::string rtrim''', '''  std::array<T, N> history_;
  T sum_{};
  std::size_t ptr_{};
};

std::string rtrim''')],
    '''
x = s16(mpx([g(1, 'A', 0, 0x1234, i) for i in range(40)]))
a = run(['-r', '171000', '-E'], x).stdout
for v in (1, 64, 190):
    b = run(['-r', '171000', '-E'], x, env={'MALLOC_PERTURB_': str(v)}).stdout
    check(a == b, '%r / %r' % (a[:300], b[:300]))
''')

bug('C27-wall-clock', 'C27',
    'a station absent for more than ten seconds in a recording that is decoded faster (or slower) than it was made',
    'whether the PI code must be confirmed again depends on how fast the input is read',
    [('src/redsea.cc', '''  while (!mpx.eof()) {
    mpx.fillBuffer();
''', '''  auto last_reset = std::chrono::system_clock::now();
  while (!mpx.eof()) {
    mpx.fillBuffer();
    const auto now = std::chrono::system_clock::now();
'''),
     ('src/redsea.cc', '''            subcarriers[ch]->getSecondsSinceLastReset() > 5.f) {
''', '''            now - last_reset > std::chrono::seconds(5)) {
          last_reset = now;
'''),
     ('src/redsea.cc', '#include <cstdint>\n#include <exception>\n', '#include <chrono>\n#include <cstdint>\n#include <exception>\n')],
    '''
import time
import numpy as np
x = mpx([g(1, 'A', 0, 0x1234, i) for i in range(30)])
z = np.zeros(171000 * 13)
d = s16(np.concatenate([x, z, x]))
a = run(['-r', '171000'], d).stdout
p = subprocess.Popen([EXE, '-r', '171000'], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
n = len(d) // 2
n -= n % 2
p.stdin.write(d[:n])
p.stdin.flush()
time.sleep(6)
p.stdin.write(d[n:])
p.stdin.close()
b = p.stdout.read()
check(a == b, '%d lines from a file, %d live' % (a.count(b'\\n'), b.count(b'\\n')))
''')
