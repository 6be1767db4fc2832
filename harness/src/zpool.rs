//! Windows of 32 bytes by their zstd hash: in the first six the low 51 bits are ones, in windows
//! 6 + 2 j and 7 + 2 j all of them but bit j. Found by a search when this was written; `model.rs`
//! gives the hash.
pub const POOL: [[u8; 32]; 108] = [
    [102, 216, 215, 0, 61, 107, 61, 23, 153, 36, 156, 238, 235, 28, 254, 27, 252, 154, 196, 138, 126, 14, 58, 22, 0, 152, 174, 248, 55, 216, 92, 170],
    [22, 202, 179, 219, 41, 122, 253, 17, 88, 242, 5, 237, 57, 224, 86, 243, 134, 87, 116, 159, 72, 146, 41, 67, 2, 23, 7, 205, 213, 63, 197, 68],
    [57, 216, 154, 227, 94, 218, 50, 176, 143, 182, 172, 251, 67, 2, 31, 159, 212, 167, 101, 115, 78, 240, 161, 28, 0, 209, 14, 53, 127, 167, 36, 130],
    [92, 40, 249, 69, 179, 18, 5, 211, 193, 252, 85, 97, 125, 56, 49, 44, 13, 24, 101, 107, 118, 164, 205, 142, 2, 160, 34, 6, 184, 103, 93, 21],
    [75, 5, 2, 98, 231, 23, 129, 55, 241, 6, 13, 197, 198, 38, 119, 97, 118, 145, 242, 236, 141, 205, 36, 226, 1, 188, 114, 195, 144, 142, 231, 46],
    [190, 47, 111, 69, 241, 20, 230, 7, 186, 139, 13, 138, 111, 28, 232, 126, 183, 172, 232, 188, 252, 229, 21, 212, 1, 3, 114, 127, 193, 133, 129, 4],
    [132, 114, 109, 240, 223, 50, 123, 1, 141, 5, 43, 234, 148, 167, 235, 183, 108, 118, 65, 101, 16, 209, 230, 242, 1, 198, 234, 134, 64, 52, 160, 126],
    [149, 158, 61, 121, 89, 77, 141, 22, 171, 80, 121, 244, 64, 8, 118, 233, 93, 43, 95, 186, 181, 205, 180, 204, 6, 167, 164, 186, 92, 230, 79, 254],
    [118, 212, 10, 174, 68, 207, 86, 165, 55, 228, 4, 30, 17, 40, 7, 51, 112, 66, 47, 39, 163, 41, 167, 60, 3, 15, 230, 85, 71, 135, 209, 228],
    [14, 169, 0, 159, 68, 186, 91, 81, 4, 0, 125, 143, 124, 78, 48, 28, 220, 129, 128, 58, 176, 157, 170, 120, 0, 50, 44, 236, 240, 204, 11, 42],
    [75, 124, 218, 11, 78, 240, 255, 241, 47, 229, 216, 213, 89, 114, 70, 133, 48, 44, 47, 22, 246, 210, 229, 247, 0, 233, 206, 197, 76, 185, 245, 45],
    [27, 60, 16, 218, 28, 35, 219, 12, 84, 249, 33, 138, 210, 161, 167, 111, 237, 69, 171, 104, 129, 82, 27, 37, 0, 174, 21, 23, 75, 6, 121, 77],
    [225, 144, 101, 234, 145, 109, 248, 162, 240, 231, 102, 48, 51, 230, 110, 52, 151, 25, 230, 187, 32, 155, 72, 180, 0, 96, 141, 179, 48, 145, 231, 113],
    [177, 92, 110, 125, 185, 38, 118, 137, 204, 156, 105, 199, 233, 186, 181, 11, 123, 193, 223, 248, 106, 26, 137, 48, 1, 5, 68, 150, 150, 83, 165, 220],
    [80, 168, 60, 124, 110, 47, 237, 118, 152, 109, 102, 157, 221, 224, 1, 220, 42, 50, 44, 154, 50, 249, 109, 231, 0, 14, 76, 143, 25, 83, 219, 12],
    [106, 124, 82, 219, 218, 241, 102, 244, 141, 22, 21, 204, 203, 8, 131, 232, 194, 5, 45, 197, 83, 25, 202, 101, 0, 34, 44, 122, 145, 175, 183, 234],
    [229, 34, 96, 47, 11, 244, 69, 242, 227, 120, 17, 201, 105, 135, 185, 183, 226, 12, 108, 210, 227, 73, 34, 195, 1, 42, 246, 238, 159, 136, 230, 185],
    [2, 234, 237, 156, 242, 244, 237, 221, 47, 113, 136, 154, 221, 8, 70, 124, 12, 95, 114, 92, 220, 47, 20, 64, 0, 91, 161, 59, 212, 202, 178, 120],
    [57, 254, 36, 37, 71, 49, 51, 22, 242, 218, 149, 75, 182, 144, 218, 141, 84, 37, 255, 41, 102, 248, 93, 144, 1, 59, 200, 197, 120, 30, 137, 53],
    [150, 239, 93, 105, 232, 89, 217, 32, 213, 216, 237, 212, 25, 216, 111, 120, 47, 254, 195, 167, 99, 181, 111, 90, 0, 162, 86, 175, 96, 172, 63, 116],
    [18, 58, 104, 204, 252, 230, 25, 151, 214, 217, 92, 35, 68, 6, 132, 99, 98, 174, 233, 53, 132, 18, 11, 199, 2, 132, 151, 195, 249, 148, 9, 246],
    [0, 34, 145, 37, 216, 85, 163, 236, 158, 16, 155, 244, 53, 35, 69, 77, 17, 194, 84, 249, 110, 60, 11, 220, 1, 6, 67, 61, 115, 204, 18, 143],
    [124, 208, 140, 65, 227, 221, 208, 149, 63, 101, 90, 91, 219, 228, 189, 56, 164, 18, 136, 124, 118, 183, 246, 138, 9, 34, 136, 94, 72, 21, 225, 194],
    [142, 82, 209, 174, 28, 54, 66, 29, 1, 195, 238, 69, 248, 193, 155, 241, 216, 109, 49, 169, 108, 11, 126, 112, 2, 200, 107, 234, 62, 233, 220, 171],
    [72, 120, 132, 155, 148, 173, 236, 127, 8, 81, 254, 64, 253, 194, 162, 242, 173, 164, 8, 160, 30, 98, 146, 25, 5, 47, 240, 231, 246, 191, 38, 74],
    [155, 110, 110, 252, 222, 217, 215, 75, 238, 206, 142, 148, 55, 134, 172, 255, 152, 175, 198, 95, 165, 190, 179, 70, 0, 13, 29, 25, 215, 62, 146, 161],
    [190, 179, 165, 54, 182, 155, 36, 237, 35, 200, 252, 42, 203, 92, 195, 27, 140, 59, 177, 63, 123, 203, 0, 79, 3, 65, 51, 116, 117, 247, 198, 100],
    [102, 222, 14, 77, 81, 112, 165, 243, 7, 17, 108, 197, 201, 155, 32, 88, 129, 110, 212, 233, 119, 174, 251, 12, 1, 43, 33, 138, 136, 102, 29, 24],
    [16, 125, 118, 75, 63, 237, 230, 143, 78, 36, 221, 56, 243, 74, 118, 167, 111, 108, 85, 170, 191, 4, 195, 140, 2, 76, 143, 20, 104, 103, 60, 219],
    [19, 104, 72, 226, 154, 60, 235, 2, 255, 233, 81, 211, 117, 116, 106, 49, 96, 108, 54, 127, 211, 205, 233, 253, 1, 247, 39, 218, 241, 71, 1, 248],
    [114, 250, 236, 112, 242, 21, 194, 161, 146, 118, 162, 54, 209, 73, 140, 25, 77, 130, 140, 39, 39, 144, 217, 144, 0, 204, 139, 246, 174, 37, 142, 104],
    [46, 221, 118, 51, 162, 170, 188, 2, 139, 33, 24, 90, 49, 37, 81, 128, 113, 249, 200, 117, 98, 216, 102, 162, 1, 183, 24, 9, 120, 208, 81, 133],
    [236, 56, 254, 142, 55, 216, 251, 66, 186, 16, 172, 42, 151, 147, 38, 24, 84, 245, 96, 91, 41, 19, 138, 221, 1, 103, 42, 226, 124, 103, 239, 190],
    [26, 156, 76, 54, 170, 42, 166, 188, 154, 108, 228, 108, 190, 49, 117, 102, 216, 217, 154, 110, 209, 246, 133, 56, 0, 139, 34, 159, 78, 17, 219, 178],
    [222, 159, 84, 74, 118, 150, 109, 21, 3, 12, 224, 102, 104, 215, 52, 43, 140, 199, 187, 209, 148, 5, 89, 228, 6, 206, 171, 161, 191, 6, 4, 93],
    [245, 77, 73, 132, 212, 2, 187, 197, 11, 145, 189, 47, 219, 110, 170, 43, 10, 4, 93, 53, 171, 175, 198, 77, 4, 84, 90, 241, 144, 248, 58, 230],
    [225, 246, 170, 151, 11, 220, 152, 211, 117, 107, 39, 207, 214, 60, 241, 76, 110, 52, 102, 192, 33, 205, 112, 196, 1, 21, 227, 86, 69, 59, 202, 219],
    [159, 158, 144, 172, 97, 106, 167, 25, 202, 113, 213, 15, 136, 179, 52, 56, 226, 156, 126, 122, 70, 124, 247, 185, 3, 110, 106, 164, 236, 243, 22, 237],
    [37, 207, 36, 247, 71, 94, 104, 36, 174, 7, 105, 77, 139, 104, 140, 179, 229, 140, 236, 217, 70, 38, 76, 11, 2, 249, 244, 170, 42, 127, 129, 178],
    [56, 67, 63, 209, 65, 233, 46, 224, 149, 21, 226, 110, 214, 36, 170, 22, 169, 204, 91, 101, 97, 195, 210, 180, 0, 71, 73, 61, 58, 218, 83, 233],
    [243, 153, 66, 147, 97, 205, 40, 189, 235, 23, 3, 37, 83, 217, 61, 164, 240, 138, 118, 222, 160, 19, 141, 69, 0, 171, 0, 202, 90, 79, 139, 200],
    [198, 233, 3, 152, 152, 174, 32, 216, 16, 242, 136, 112, 239, 116, 18, 189, 38, 251, 106, 52, 197, 225, 235, 100, 1, 218, 239, 106, 120, 148, 82, 125],
    [214, 78, 78, 97, 205, 91, 10, 192, 222, 216, 221, 51, 29, 16, 250, 77, 15, 114, 226, 137, 242, 149, 140, 168, 0, 98, 246, 237, 33, 190, 128, 15],
    [133, 220, 130, 171, 203, 252, 10, 89, 162, 235, 81, 234, 228, 34, 241, 95, 71, 108, 16, 122, 203, 123, 174, 40, 0, 245, 2, 207, 94, 249, 93, 100],
    [55, 69, 13, 90, 109, 67, 250, 174, 94, 169, 57, 213, 248, 181, 166, 108, 249, 26, 192, 107, 143, 68, 54, 139, 0, 247, 42, 193, 255, 8, 85, 152],
    [138, 253, 224, 32, 234, 141, 1, 177, 107, 216, 81, 173, 34, 84, 189, 176, 218, 112, 114, 230, 80, 221, 190, 90, 1, 91, 9, 29, 41, 228, 161, 112],
    [10, 240, 51, 139, 85, 213, 173, 174, 42, 97, 112, 92, 188, 228, 157, 221, 232, 143, 62, 97, 62, 81, 185, 212, 3, 119, 253, 188, 219, 174, 26, 113],
    [52, 22, 115, 165, 65, 236, 162, 149, 30, 3, 98, 51, 62, 154, 223, 110, 114, 30, 110, 110, 149, 7, 57, 151, 1, 253, 102, 46, 192, 220, 128, 0],
    [226, 18, 81, 31, 133, 201, 212, 16, 205, 58, 66, 238, 44, 255, 141, 229, 16, 200, 219, 39, 181, 78, 175, 107, 9, 53, 207, 112, 22, 129, 87, 227],
    [91, 157, 215, 57, 127, 68, 73, 39, 19, 171, 200, 76, 224, 68, 114, 248, 235, 44, 53, 172, 161, 63, 88, 45, 0, 31, 122, 242, 85, 129, 246, 238],
    [201, 160, 113, 94, 173, 237, 149, 108, 81, 3, 152, 192, 116, 40, 87, 215, 99, 97, 186, 231, 235, 204, 249, 170, 0, 142, 161, 175, 105, 69, 40, 93],
    [76, 48, 174, 83, 221, 84, 86, 161, 176, 194, 198, 209, 220, 153, 114, 67, 5, 203, 16, 64, 176, 104, 209, 89, 4, 188, 64, 82, 200, 235, 218, 84],
    [98, 26, 90, 71, 178, 27, 213, 140, 8, 198, 26, 225, 120, 100, 39, 205, 200, 89, 55, 133, 112, 132, 88, 92, 1, 23, 208, 192, 205, 61, 50, 188],
    [164, 118, 193, 21, 126, 26, 42, 190, 2, 114, 111, 99, 27, 181, 53, 110, 199, 111, 246, 158, 58, 45, 108, 137, 2, 39, 207, 12, 36, 134, 25, 251],
    [67, 85, 127, 244, 23, 213, 133, 254, 56, 72, 248, 201, 51, 236, 246, 167, 253, 81, 144, 42, 10, 157, 109, 112, 1, 31, 223, 220, 78, 100, 78, 131],
    [73, 181, 85, 234, 122, 63, 110, 64, 126, 220, 57, 222, 157, 41, 6, 163, 148, 213, 92, 59, 49, 40, 107, 252, 0, 10, 101, 89, 233, 233, 22, 163],
    [21, 138, 195, 94, 79, 196, 203, 230, 173, 74, 107, 163, 184, 80, 178, 230, 233, 180, 93, 41, 136, 80, 215, 29, 2, 29, 33, 80, 194, 244, 73, 50],
    [173, 115, 10, 121, 88, 117, 111, 132, 125, 232, 225, 210, 11, 174, 158, 10, 41, 205, 95, 169, 89, 95, 52, 217, 0, 172, 124, 186, 137, 122, 67, 100],
    [31, 116, 251, 169, 165, 201, 247, 32, 167, 232, 169, 144, 69, 8, 124, 217, 227, 235, 14, 140, 175, 44, 11, 90, 5, 10, 175, 196, 215, 165, 168, 73],
    [91, 33, 112, 117, 207, 147, 190, 71, 76, 85, 182, 85, 151, 19, 96, 130, 108, 109, 206, 156, 151, 214, 46, 210, 4, 54, 124, 237, 251, 190, 29, 118],
    [20, 87, 0, 219, 228, 81, 210, 216, 73, 130, 174, 180, 93, 24, 66, 124, 25, 221, 172, 17, 174, 172, 148, 122, 0, 114, 144, 210, 114, 150, 121, 166],
    [175, 192, 205, 90, 191, 179, 8, 236, 65, 109, 143, 2, 244, 163, 200, 200, 95, 102, 39, 79, 216, 102, 238, 162, 0, 76, 255, 241, 201, 156, 154, 191],
    [237, 182, 84, 31, 150, 61, 108, 68, 124, 10, 207, 114, 80, 28, 186, 214, 246, 35, 96, 47, 230, 186, 135, 210, 1, 234, 251, 242, 36, 239, 248, 81],
    [213, 233, 21, 251, 164, 87, 40, 39, 253, 66, 228, 92, 107, 26, 234, 97, 7, 65, 252, 147, 149, 111, 110, 235, 0, 160, 142, 227, 165, 16, 36, 40],
    [5, 101, 102, 157, 108, 43, 69, 189, 162, 91, 196, 212, 130, 99, 110, 238, 96, 62, 66, 124, 35, 64, 148, 51, 0, 249, 1, 70, 170, 158, 34, 27],
    [5, 112, 182, 28, 178, 255, 116, 39, 28, 33, 213, 240, 237, 85, 181, 193, 3, 155, 135, 56, 245, 247, 218, 145, 0, 156, 56, 155, 155, 108, 171, 247],
    [12, 177, 89, 65, 63, 3, 165, 241, 182, 65, 90, 141, 211, 81, 219, 253, 157, 245, 124, 124, 108, 209, 189, 71, 4, 227, 227, 176, 53, 12, 43, 205],
    [124, 29, 176, 230, 113, 161, 188, 197, 130, 143, 126, 60, 36, 128, 151, 199, 149, 5, 28, 166, 77, 28, 176, 121, 0, 214, 212, 82, 41, 223, 161, 181],
    [2, 133, 22, 127, 100, 160, 130, 23, 146, 92, 42, 168, 56, 39, 217, 170, 182, 136, 56, 252, 149, 153, 21, 78, 1, 57, 252, 105, 180, 118, 73, 133],
    [73, 38, 182, 112, 207, 37, 129, 151, 52, 245, 188, 12, 224, 89, 74, 227, 82, 207, 184, 50, 169, 177, 115, 120, 0, 46, 70, 100, 53, 14, 135, 251],
    [226, 37, 197, 116, 40, 95, 220, 25, 87, 34, 53, 37, 102, 140, 10, 124, 185, 3, 158, 7, 131, 218, 17, 76, 0, 225, 162, 163, 108, 144, 147, 58],
    [31, 25, 200, 252, 252, 48, 87, 21, 176, 136, 47, 217, 220, 147, 97, 40, 44, 66, 44, 25, 128, 165, 137, 66, 0, 32, 159, 70, 234, 194, 55, 250],
    [151, 108, 41, 154, 74, 48, 221, 141, 1, 48, 168, 217, 52, 137, 225, 173, 232, 124, 130, 52, 38, 58, 12, 80, 1, 152, 155, 218, 240, 171, 102, 229],
    [83, 179, 25, 29, 201, 18, 38, 139, 221, 251, 49, 58, 189, 113, 146, 41, 11, 36, 245, 166, 88, 119, 148, 228, 3, 52, 213, 47, 230, 25, 78, 250],
    [127, 12, 53, 205, 56, 236, 175, 235, 237, 21, 222, 83, 26, 210, 172, 223, 245, 27, 56, 136, 203, 95, 241, 164, 1, 156, 29, 103, 108, 124, 120, 12],
    [12, 179, 84, 254, 170, 163, 41, 44, 203, 105, 1, 47, 21, 111, 115, 173, 35, 25, 84, 95, 104, 137, 15, 238, 2, 76, 185, 91, 217, 247, 149, 12],
    [139, 237, 136, 226, 72, 204, 25, 64, 224, 45, 231, 4, 121, 98, 4, 149, 198, 16, 209, 91, 132, 239, 49, 212, 0, 65, 142, 34, 118, 97, 246, 88],
    [80, 136, 57, 103, 128, 191, 26, 33, 8, 4, 12, 56, 70, 76, 93, 219, 173, 101, 218, 76, 143, 31, 105, 127, 2, 120, 227, 182, 171, 231, 128, 134],
    [114, 244, 186, 167, 82, 159, 171, 137, 216, 237, 61, 236, 20, 179, 191, 38, 164, 115, 190, 93, 131, 126, 19, 17, 2, 81, 205, 40, 200, 16, 31, 245],
    [133, 78, 30, 34, 147, 236, 68, 153, 71, 84, 171, 118, 38, 57, 31, 71, 243, 65, 136, 29, 225, 215, 238, 139, 0, 188, 116, 99, 162, 173, 141, 2],
    [190, 64, 148, 166, 103, 64, 137, 205, 7, 166, 175, 184, 138, 51, 119, 168, 13, 123, 162, 28, 181, 83, 20, 218, 6, 57, 11, 219, 65, 80, 160, 170],
    [28, 84, 198, 21, 251, 74, 234, 138, 94, 19, 16, 150, 7, 46, 28, 175, 69, 219, 245, 90, 214, 1, 124, 125, 0, 151, 29, 245, 217, 156, 36, 87],
    [24, 10, 9, 244, 100, 20, 209, 50, 249, 13, 149, 212, 251, 71, 170, 26, 3, 224, 49, 102, 150, 81, 49, 214, 1, 78, 243, 121, 134, 206, 92, 97],
    [205, 23, 25, 132, 64, 171, 6, 111, 8, 13, 45, 196, 55, 33, 113, 233, 255, 226, 25, 32, 45, 21, 125, 226, 3, 73, 124, 143, 246, 136, 63, 225],
    [24, 164, 46, 224, 178, 173, 245, 238, 89, 178, 232, 136, 139, 89, 52, 195, 220, 211, 244, 57, 64, 16, 215, 182, 1, 186, 188, 230, 118, 69, 184, 174],
    [66, 22, 167, 73, 108, 245, 66, 34, 179, 142, 189, 194, 61, 187, 6, 50, 143, 91, 25, 125, 166, 100, 94, 27, 4, 45, 98, 249, 44, 192, 230, 221],
    [160, 135, 170, 115, 251, 81, 240, 118, 117, 29, 178, 154, 205, 228, 127, 44, 48, 50, 71, 146, 101, 143, 0, 67, 1, 225, 211, 150, 117, 58, 13, 250],
    [74, 91, 105, 196, 21, 78, 5, 252, 130, 7, 229, 62, 98, 132, 237, 234, 14, 216, 130, 216, 70, 87, 31, 218, 1, 109, 13, 87, 123, 206, 1, 114],
    [99, 226, 109, 62, 197, 217, 132, 137, 149, 236, 79, 3, 91, 214, 229, 202, 68, 231, 25, 221, 1, 87, 246, 46, 1, 172, 201, 145, 23, 61, 84, 49],
    [60, 204, 65, 83, 204, 255, 169, 159, 138, 145, 233, 29, 178, 70, 199, 50, 191, 69, 34, 109, 42, 107, 117, 190, 0, 15, 85, 36, 121, 189, 251, 252],
    [65, 30, 218, 215, 62, 212, 51, 65, 52, 253, 222, 111, 176, 154, 32, 95, 83, 240, 77, 39, 105, 50, 248, 168, 1, 214, 201, 154, 79, 84, 24, 219],
    [129, 241, 27, 8, 254, 108, 191, 26, 207, 147, 104, 219, 22, 1, 112, 106, 168, 160, 137, 156, 81, 218, 239, 176, 0, 212, 25, 47, 178, 55, 87, 4],
    [79, 141, 77, 175, 98, 90, 248, 73, 32, 130, 15, 208, 203, 121, 71, 27, 70, 63, 53, 152, 23, 250, 144, 68, 0, 151, 69, 134, 182, 206, 209, 83],
    [178, 4, 36, 221, 167, 59, 63, 255, 59, 134, 187, 20, 78, 79, 77, 209, 212, 105, 16, 98, 40, 210, 53, 135, 1, 26, 95, 111, 187, 117, 229, 206],
    [120, 7, 64, 241, 255, 186, 255, 97, 38, 91, 49, 47, 134, 221, 57, 190, 69, 6, 96, 188, 19, 67, 235, 212, 1, 188, 229, 28, 251, 168, 153, 59],
    [173, 102, 239, 223, 219, 100, 66, 149, 47, 63, 110, 85, 52, 85, 203, 56, 168, 38, 130, 41, 181, 56, 39, 176, 4, 3, 108, 252, 161, 136, 119, 233],
    [103, 72, 125, 126, 216, 177, 2, 71, 138, 247, 84, 229, 160, 18, 215, 65, 218, 0, 228, 68, 235, 79, 137, 17, 4, 0, 79, 231, 64, 98, 114, 223],
    [196, 100, 71, 162, 243, 22, 48, 250, 154, 187, 175, 65, 204, 85, 242, 109, 201, 87, 225, 108, 92, 152, 19, 172, 2, 219, 2, 199, 218, 247, 235, 46],
    [88, 235, 104, 12, 77, 235, 128, 100, 224, 72, 89, 92, 80, 122, 173, 14, 151, 78, 167, 87, 7, 98, 14, 152, 2, 200, 34, 110, 91, 166, 237, 12],
    [108, 233, 102, 111, 211, 5, 10, 179, 246, 239, 232, 95, 7, 84, 124, 213, 179, 147, 5, 132, 116, 2, 59, 144, 0, 61, 92, 244, 164, 251, 116, 170],
    [41, 244, 6, 132, 219, 175, 25, 122, 43, 240, 192, 66, 93, 53, 124, 193, 37, 2, 199, 52, 159, 239, 117, 82, 1, 19, 236, 199, 21, 46, 38, 250],
    [227, 32, 212, 121, 69, 198, 166, 250, 32, 167, 77, 131, 162, 83, 72, 196, 14, 115, 147, 20, 172, 205, 249, 244, 0, 66, 200, 237, 240, 203, 220, 34],
    [121, 139, 14, 108, 143, 147, 28, 181, 218, 104, 21, 151, 15, 39, 115, 138, 112, 125, 62, 248, 176, 254, 173, 225, 3, 32, 22, 254, 149, 71, 50, 221],
    [150, 48, 39, 72, 149, 16, 80, 123, 227, 65, 135, 170, 24, 18, 224, 122, 191, 45, 146, 55, 0, 216, 97, 65, 0, 226, 124, 225, 104, 167, 167, 219],
    [24, 225, 4, 235, 59, 128, 184, 51, 43, 209, 129, 27, 63, 135, 11, 111, 38, 51, 212, 121, 118, 226, 170, 200, 3, 113, 233, 64, 120, 5, 73, 254],
    [184, 171, 35, 116, 91, 179, 48, 177, 16, 31, 252, 12, 254, 18, 58, 93, 76, 209, 169, 197, 251, 17, 231, 252, 6, 201, 240, 177, 48, 68, 154, 62],
    [85, 245, 215, 141, 180, 149, 244, 87, 122, 198, 171, 60, 24, 96, 96, 245, 214, 173, 168, 213, 37, 117, 205, 186, 1, 57, 158, 136, 32, 196, 92, 64],
    [132, 59, 230, 213, 75, 162, 111, 39, 205, 234, 100, 101, 219, 146, 125, 23, 59, 70, 236, 148, 228, 78, 78, 16, 0, 88, 35, 181, 96, 125, 50, 235],
];
