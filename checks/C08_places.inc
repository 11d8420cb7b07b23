// Generated: statements at lines, in files and in functions of many sizes.
#define PLACE_LINE 1
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_1
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 2
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_2
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 9
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_9
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 10
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_10
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 99
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_99
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 100
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_100
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 127
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_127
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 128
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_128
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 255
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_255
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 256
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_256
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 257
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_257
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 999
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_999
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 1000
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_1000
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 4095
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_4095
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 4096
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_4096
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 8191
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_8191
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 9999
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_9999
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 10000
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_10000
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 16383
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_16383
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 32767
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_32767
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 32768
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_32768
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 65535
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_65535
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 65536
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_65536
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 65537
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_65537
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 99999
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_99999
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 100000
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_100000
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 131072
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_131072
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 1000000
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_1000000
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 16777215
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_16777215
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 16777216
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_16777216
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 99999999
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_99999999
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 1000000000
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_1000000000
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 2147483646
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_2147483646
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 2147483647
#define PLACE_FILE "some/file.cpp"
#define PLACE_FUNC at_line_2147483647
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 77
#define PLACE_FILE "a"
#define PLACE_FUNC in_file_0
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 77
#define PLACE_FILE "a.cpp"
#define PLACE_FUNC in_file_1
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 77
#define PLACE_FILE "dir/with spaces/100%s %n.cpp"
#define PLACE_FUNC in_file_2
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 77
#define PLACE_FILE "C:\\dir\\file.cpp"
#define PLACE_FUNC in_file_3
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 77
#define PLACE_FILE "äö.cpp"
#define PLACE_FUNC in_file_4
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 77
#define PLACE_FILE "ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/abc.h"
#define PLACE_FUNC in_file_5
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 77
#define PLACE_FILE "ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/abcdefg.h"
#define PLACE_FUNC in_file_6
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 77
#define PLACE_FILE "ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/x.h"
#define PLACE_FUNC in_file_7
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 77
#define PLACE_FILE "ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/x.h"
#define PLACE_FUNC in_file_8
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 77
#define PLACE_FILE "ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/x.h"
#define PLACE_FUNC in_file_9
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 77
#define PLACE_FILE "ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/ten_chars/x.h"
#define PLACE_FUNC in_file_10
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 78
#define PLACE_FILE "other.cpp"
#define PLACE_FUNC f
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 78
#define PLACE_FILE "other.cpp"
#define PLACE_FUNC test_xxxxxxxxxxxxxxxxxxxxxxxxxx
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 78
#define PLACE_FILE "other.cpp"
#define PLACE_FUNC test_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 78
#define PLACE_FILE "other.cpp"
#define PLACE_FUNC test_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 78
#define PLACE_FILE "other.cpp"
#define PLACE_FUNC test_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
#define PLACE_LINE 78
#define PLACE_FILE "other.cpp"
#define PLACE_FUNC test_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
#include "place.inc"
#undef PLACE_LINE
#undef PLACE_FILE
#undef PLACE_FUNC
