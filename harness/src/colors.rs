/// The colours which have a name, as usually shown on a screen, and how far from it a
/// rendering may be in one of red, green and blue: some were defined for print, and the ways to
/// convert those differ, most of all for those no screen can show.
pub const NAMED: &[(&str, (u8, u8, u8), u8)] = &[
    ("Apricot", (251, 185, 130), 36),
    ("Aquamarine", (0, 181, 190), 36),
    ("Bittersweet", (192, 79, 23), 36),
    ("Black", (34, 30, 31), 36),
    ("Blue", (45, 47, 146), 36),
    ("BlueGreen", (0, 179, 184), 36),
    ("BlueViolet", (71, 57, 146), 36),
    ("BrickRed", (182, 50, 28), 36),
    ("Brown", (121, 37, 0), 36),
    ("BurntOrange", (247, 146, 29), 36),
    ("CadetBlue", (116, 114, 154), 36),
    ("CarnationPink", (242, 130, 180), 36),
    ("Cerulean", (0, 162, 227), 36),
    ("CornflowerBlue", (65, 176, 228), 36),
    ("Cyan", (0, 174, 239), 36),
    ("Dandelion", (253, 188, 66), 36),
    ("DarkOrchid", (164, 83, 138), 36),
    ("Emerald", (0, 169, 157), 36),
    ("ForestGreen", (0, 155, 85), 36),
    ("Fuchsia", (140, 54, 140), 36),
    ("Goldenrod", (255, 223, 66), 36),
    ("Gray", (148, 150, 152), 36),
    ("Green", (0, 166, 79), 36),
    ("GreenYellow", (223, 230, 116), 36),
    ("JungleGreen", (0, 169, 154), 36),
    ("Lavender", (244, 158, 196), 36),
    ("LimeGreen", (141, 199, 62), 36),
    ("Magenta", (236, 0, 140), 66),
    ("Mahogany", (169, 52, 31), 36),
    ("Maroon", (175, 50, 53), 36),
    ("Melon", (248, 158, 123), 36),
    ("MidnightBlue", (0, 103, 149), 36),
    ("Mulberry", (169, 60, 147), 36),
    ("NavyBlue", (0, 110, 184), 36),
    ("OliveGreen", (60, 128, 49), 36),
    ("Orange", (245, 129, 55), 36),
    ("OrangeRed", (237, 19, 90), 36),
    ("Orchid", (175, 114, 176), 36),
    ("Peach", (247, 150, 90), 36),
    ("Periwinkle", (121, 119, 184), 36),
    ("PineGreen", (0, 139, 114), 36),
    ("Plum", (146, 38, 143), 36),
    ("ProcessBlue", (0, 176, 240), 36),
    ("Purple", (153, 71, 155), 36),
    ("RawSienna", (151, 64, 6), 36),
    ("Red", (237, 27, 35), 36),
    ("RedOrange", (242, 96, 53), 36),
    ("RedViolet", (161, 36, 107), 36),
    ("Rhodamine", (239, 85, 159), 36),
    ("RoyalBlue", (0, 113, 188), 36),
    ("RoyalPurple", (97, 63, 153), 36),
    ("RubineRed", (237, 1, 125), 66),
    ("Salmon", (246, 146, 137), 36),
    ("SeaGreen", (63, 188, 157), 36),
    ("Sepia", (103, 24, 0), 36),
    ("SkyBlue", (70, 197, 221), 36),
    ("SpringGreen", (198, 220, 103), 36),
    ("Tan", (218, 157, 118), 36),
    ("TealBlue", (0, 174, 179), 36),
    ("Thistle", (216, 131, 183), 36),
    ("Turquoise", (0, 180, 206), 36),
    ("Violet", (88, 66, 155), 36),
    ("VioletRed", (239, 88, 160), 36),
    ("White", (255, 255, 255), 36),
    ("WildStrawberry", (238, 41, 103), 36),
    ("Yellow", (255, 242, 0), 66),
    ("YellowGreen", (152, 204, 112), 36),
    ("YellowOrange", (250, 162, 26), 36),
    ("red", (255, 0, 0), 0),
    ("green", (0, 255, 0), 5),
    ("blue", (0, 0, 255), 0),
    ("cyan", (0, 174, 239), 36),
    ("magenta", (236, 0, 140), 66),
    ("yellow", (255, 242, 0), 66),
    ("black", (0, 0, 0), 0),
    ("gray", (128, 128, 128), 0),
    ("white", (255, 255, 255), 0),
    ("darkgray", (64, 64, 64), 0),
    ("lightgray", (191, 191, 191), 0),
    ("brown", (191, 128, 64), 5),
    ("lime", (191, 255, 0), 5),
    ("olive", (128, 128, 0), 36),
    ("orange", (255, 128, 0), 5),
    ("pink", (255, 191, 191), 0),
    ("purple", (191, 0, 64), 5),
    ("teal", (0, 128, 128), 0),
    ("violet", (128, 0, 128), 0),
];
