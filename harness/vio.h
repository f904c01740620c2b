/* One file of the harness: in memory when executed symbolically, in the working directory when replayed. */
#include <fstream>
#define VIO_NAME "vio.tmp"
#ifdef VS_REPLAY
static void vio_make(const unsigned char *data, int size)
{
	std::ofstream f(VIO_NAME, std::ios::binary | std::ios::trunc);
	f.write((const char *)data, size);
}
static int vio_load(unsigned char *data, int max)
{
	std::ifstream f(VIO_NAME, std::ios::binary);
	f.read((char *)data, max);
	return (int)f.gcount();
}
#else
static void vio_make(const unsigned char *data, int size)
{
	for (int i = 0; i < size; ++i)
		vio_file.data[i] = data[i];
	vio_file.size = size;
}
static int vio_load(unsigned char *data, int max)
{
	int size = vio_file.size < max ? vio_file.size : max;
	for (int i = 0; i < size; ++i)
		data[i] = vio_file.data[i];
	return size;
}
#endif
