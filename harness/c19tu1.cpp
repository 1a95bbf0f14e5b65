// A first translation unit that includes the single header: the same functions under another name.
#define c19_second_tu c19_first_tu
#include "c19tu2.cpp"
