#include "hk.h"
static void t(void)
{
    t_scope;
    SB_1k(sb);
    sb_addf(&sb, "hello %d", (int)hk_below(10));
    hk_distinct(hk_hash(sb.data, sb.len, 0));
    HK_CHECK(sb.len == 7, "len", "%d", sb.len);
}
int main(int argc, char **argv)
{
    static const hk_scenario_t s[] = { { "t", t, 1000, 10000 } };
    return hk_main(argc, argv, s, 1);
}
