/* Print the content of an HDF5 file: attributes of the root group, then each dataset raw (little endian doubles). */
#include <hdf5.h>
#include <stdio.h>
#include <stdlib.h>

static herr_t attr(hid_t loc, const char * name, const H5A_info_t * info, void * p)
{
  (void)info; (void)p;
  hid_t a = H5Aopen(loc, name, H5P_DEFAULT), t = H5Aget_type(a);
  if (H5Tget_class(t) == H5T_INTEGER) { long v = 0; H5Aread(a, H5T_NATIVE_LONG, &v); printf("attr\ti\t%s\t%ld\n", name, v); }
  else if (H5Tget_class(t) == H5T_FLOAT) { double v = 0; H5Aread(a, H5T_NATIVE_DOUBLE, &v); printf("attr\tf\t%s\t%a\n", name, v); }
  else printf("attr\ts\t%s\t?\n", name);
  H5Tclose(t); H5Aclose(a);
  return 0;
}
static herr_t link_(hid_t g, const char * name, const H5L_info_t * info, void * p)
{
  (void)info; (void)p;
  hid_t d = H5Dopen2(g, name, H5P_DEFAULT);
  if (d < 0) { printf("other\t%s\n", name); return 0; }
  hid_t s = H5Dget_space(d), t = H5Dget_type(d);
  int n = H5Sget_simple_extent_ndims(s);
  hsize_t dim[8] = { 0 }, tot = 1;
  H5Sget_simple_extent_dims(s, dim, NULL);
  printf("data\t%s\t%d\t%d", name, (int)H5Tget_class(t), (int)H5Tget_size(t));
  for (int i = 0; i < n; ++i) { printf("\t%llu", (unsigned long long)dim[i]); tot *= dim[i]; }
  printf("\n");
  double * b = malloc(8 * tot + 8);
  if (H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, b) < 0) { fprintf(stderr, "unreadable dataset %s\n", name); exit(3); }
  fwrite(b, 8, tot, stdout);
  free(b); H5Tclose(t); H5Sclose(s); H5Dclose(d);
  return 0;
}
int main(int argc, char ** argv)
{
  if (argc < 2) return 2;
  hid_t f = H5Fopen(argv[1], H5F_ACC_RDONLY, H5P_DEFAULT);
  if (f < 0) return 3;
  H5Aiterate2(f, H5_INDEX_NAME, H5_ITER_INC, NULL, attr, NULL);
  H5Literate(f, H5_INDEX_NAME, H5_ITER_INC, NULL, link_, NULL);
  printf("end\n");
  H5Fclose(f);
  return 0;
}
