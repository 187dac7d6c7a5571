extern "C" int msx_fs_type(char const*,int*){return 0;} extern "C" long msx_fs_mtime(char const*,int*){return 0;} extern "C" int msx_fs_entry(char const*,int,char*,unsigned,int*){return 0;}
