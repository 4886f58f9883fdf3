// Reads binary bigram statistics from stdin with the project's record reader.
#include "hk.h"
#include "wdt/bench/Bigram.h"
int main() {
  Bigram b;
  while (b.binaryDeserialize(std::cin)) {
    uint32_t count = 0;
    if (!std::cin.read(reinterpret_cast<char*>(&count), sizeof count)) {
      printf("CUT\n");
      break;
    }
    printf("%02x%02x %u\n", b[0] & 255, b[1] & 255, count);
  }
  printf("END\n");
  return 0;
}
