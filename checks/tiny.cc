// C06: local databases of every small size: they are refused or work, and nothing outside their memory is touched
#include "mc.h"
#include "wgdb.h"
using namespace mc;
int main(int argc, char **argv) {
  init(argc, argv); Cases C;
  std::vector<gint> sizes; gint H = sizeof(db_memsegment_header);
  for (gint s = 1; s < 200; s++) sizes.push_back(s);
  for (gint s = 200; s < H + 100; s += 97) sizes.push_back(s);
  for (gint s = H - 40; s < H + 200; s++) sizes.push_back(s);
  for (gint s = H + 200; s < 700000; s += 1009) sizes.push_back(s);
  for (gint s : sizes) C.run([&] { return fmt("local database of %ld bytes", (long)s); }, [&] {
    void *db = wg_attach_local_database(s); if (!db) { count("refused"); return true; }
    count("attached"); MC_CHECK(s >= H, "too-small", "a database of %ld bytes was created, its header has %ld", (long)s, (long)H);
    MC_CHECK(HDR(db)->size == s && HDR(db)->free <= s, "size", "size %ld, used up to %ld", (long)HDR(db)->size, (long)HDR(db)->free);
    fsck(db);
    int n = 0; while (n < 3000) { void *r = wg_create_record(db, 200); if (!r) break; if (wg_set_field(db, r, 199, wg_encode_str(db, (char *)"a string that is long enough to be shared", NULL))) break; n++; }
    MC_CHECK(HDR(db)->free <= s, "size", "used up to %ld of %ld", (long)HDR(db)->free, (long)s); count(n ? "records stored" : "no records fit");
    wg_delete_local_database(db); return true; });
  finish(C.failed());
}
