#include "core.h"
int main(int argc, char **argv)
{
    return core_main(argc, argv);
}
