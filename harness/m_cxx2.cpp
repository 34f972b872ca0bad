// a second translation unit that uses every header and the wrappers
#include <fsdyn/avltree.h>
#include <fsdyn/base64.h>
#include <fsdyn/bytearray.h>
#include <fsdyn/charstr.h>
#include <fsdyn/date.h>
#include <fsdyn/float.h>
#include <fsdyn/fsalloc.h>
#include <fsdyn/hashtable.h>
#include <fsdyn/integer.h>
#include <fsdyn/intset.h>
#include <fsdyn/list.h>
#include <fsdyn/priority_queue.h>
#include <utility>
using namespace fsecure::fsdyn;
// wrappers cross the translation unit in both directions
AllocPtr<char> other_make_plain(size_t n) { return make_fsalloc_ptr<char>(fsalloc(n)); }
ByteArrayPtr other_make_bytes(size_t n) { return make_byte_array_ptr(make_byte_array(n)); }
CharstrUrlEncoderPtr other_make_encoder(const char *r, const char *u)
{
    return make_charstr_url_encoder_ptr(charstr_create_url_encoder(r, u));
}
void other_take(AllocPtr<char> p) { (void) p; }
void other_take(ByteArrayPtr p) { (void) p; }
void other_take(CharstrUrlEncoderPtr p) { (void) p; }
