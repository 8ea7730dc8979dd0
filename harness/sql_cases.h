/* One query per case: text, what it must select, and how.
 *   SEL(text, match, columns...)  the rows of the FROM list's product for which
 *   `match` holds (a: row of A, b: row of B), projected to `columns`
 * A(i,c), B(j,c): the stored cell; i2/i4: its number; txt(c): its text id. */
#define ID_ 0
#define S_ 1
#define N_ 2
#define M_ 3
#define K_ 0
#define BID_ 1
#define T_ 2
#define a(c) ta0.val[i][c]
#define b(c) tb.val[j][c]
#define I2(v) ((int)(v) - 0x8000)
#define I4(v) ((int)((v) - 0x80000000u))
#define aN I4(a(N_))
#define aM I2(a(M_))
#define aID I2(a(ID_))
#define aS a(S_)
#define bID I2(b(BID_))
#define bT b(T_)
#define bK I2(b(K_))
#define ALLA {0,0},{0,1},{0,2},{0,3}
#define ALLB {1,0},{1,1},{1,2}

#if Q < 100
#define KIND_SELECT 1
#endif
/* conditions on one table */
#if Q == 0
#define QT "SELECT * FROM `A`"
#define MATCH true
#elif Q == 1
#define QT "SELECT * FROM `A` WHERE `N` > 3"
#define MATCH aN > 3
#elif Q == 2
#define QT "SELECT * FROM `A` WHERE `N` = -3"
#define MATCH aN == -3
#elif Q == 3
#define QT "SELECT * FROM `A` WHERE `N` <> 70000"
#define MATCH aN != 70000
#elif Q == 4
#define QT "SELECT * FROM `A` WHERE `N` <= ?"
#define MATCH aN <= w[0]
#define PARAMS "i"
#elif Q == 5
#define QT "SELECT * FROM `A` WHERE `N` >= `NM`"
#define MATCH aN >= aM
#elif Q == 6
#define QT "SELECT * FROM `A` WHERE `NM` < ?"
#define MATCH aM < w[0]
#define PARAMS "i"
#elif Q == 7
#define QT "SELECT * FROM `A` WHERE `NS` = 'b'"
#define MATCH aS == 2
#elif Q == 8
#define QT "SELECT * FROM `A` WHERE `NS` <> 'b'"
#define MATCH aS != 2
#elif Q == 9
#define QT "SELECT * FROM `A` WHERE `NS` = ?"
#define MATCH aS == s[0]
#define PARAMS "s"
#elif Q == 10
#define QT "SELECT * FROM `A` WHERE `NS` <> ?"
#define MATCH aS != s[0]
#define PARAMS "s"
#elif Q == 11
#define QT "SELECT * FROM `A` WHERE `NS` IS NULL"
#define MATCH !aS
#elif Q == 12
#define QT "SELECT * FROM `A` WHERE `N` IS NOT NULL"
#define MATCH a(N_) != 0
#elif Q == 13
#define QT "SELECT * FROM `A` WHERE `NM` IS NULL"
#define MATCH a(M_) == 0
#elif Q == 14
#define QT "SELECT * FROM `A` WHERE `N` > 3 AND `NS` = 'a'"
#define MATCH aN > 3 && aS == 1
#elif Q == 15
#define QT "SELECT * FROM `A` WHERE `N` > 3 OR `NS` = 'a' AND `NM` < 5"
#define MATCH aN > 3 || (aS == 1 && aM < 5)
#elif Q == 16
#define QT "SELECT * FROM `A` WHERE (`N` > 3 OR `NS` = 'a') AND `NM` < 5"
#define MATCH (aN > 3 || aS == 1) && aM < 5
#elif Q == 17
#define QT "SELECT * FROM `A` WHERE `N` = ? AND `NS` = ? OR `NM` = ?"
#define MATCH (aN == w[0] && aS == s[1]) || aM == w[2]
#define PARAMS "isi"
#elif Q == 18
#define QT "SELECT * FROM `A` WHERE `NS` = ''"
#define MATCH !aS
#elif Q == 19
#define QT "SELECT * FROM `A` WHERE `NS` = ? AND `NM` >= ? AND `N` <> ?"
#define MATCH aS == s[0] && aM >= w[1] && aN != w[2]
#define PARAMS "sii"
#elif Q == 20
#define QT "SELECT * FROM `A` WHERE `A`.`N` > -5 AND `A`.`NM` IS NOT NULL AND (`NS` IS NULL OR `NS` = 'c')"
#define MATCH aN > -5 && a(M_) && (!aS || aS == 3)
#elif Q == 21
#define QT "SELECT `NS`, `ID` FROM `A` WHERE `N` > `ID`"
#define MATCH aN > aID
#define COLS {0,S_},{0,ID_}
/* joins */
#elif Q == 30
#define TABLES 2
#define QT "SELECT `A`.`ID`, `B`.`K` FROM `A`, `B` WHERE `A`.`ID` = `B`.`ID`"
#define MATCH aID == bID
#define COLS {0,ID_},{1,K_}
#elif Q == 31
#define TABLES 2
#define QT "SELECT `K`, `NS`, `T` FROM `A`, `B` WHERE `A`.`ID` = `B`.`ID` AND `T` = 'a'"
#define MATCH aID == bID && bT == 1
#define COLS {1,K_},{0,S_},{1,T_}
#elif Q == 32
#define TABLES 2
#define QT "SELECT * FROM `A`, `B` WHERE `NS` = `T`"
#define MATCH aS == bT
#define COLS ALLA, ALLB
#elif Q == 33
#define TABLES 2
#define QT "SELECT * FROM `A`, `B`"
#define MATCH true
#define COLS ALLA, ALLB
#elif Q == 34
#define TABLES 2
#define QT "SELECT `B`.`K`, `A`.`ID` FROM `A`, `B` WHERE `A`.`N` > 3 OR `B`.`ID` < 7"
#define MATCH aN > 3 || bID < 7
#define COLS {1,K_},{0,ID_}
#elif Q == 35
#define TABLES 2
#define QT "SELECT `K` FROM `A`, `B` WHERE `NS` = ? AND `B`.`ID` = ?"
#define MATCH aS == s[0] && bID == w[1]
#define PARAMS "si"
#define COLS {1,K_}
#elif Q == 36
#define TABLES 2
#define QT "SELECT `K`, `N` FROM `A`, `B` WHERE `N` IS NULL AND `A`.`ID` = `B`.`ID`"
#define MATCH !a(N_) && aID == bID
#define COLS {1,K_},{0,N_}
#elif Q == 37
#define TABLES 2
#define QT "SELECT `K`, `N` FROM `A`, `B` WHERE `T` = ? AND `N` <= ? AND `NS` <> ?"
#define MATCH bT == s[0] && aN <= w[1] && aS != s[2]
#define PARAMS "sis"
#define COLS {1,K_},{0,N_}
#elif Q == 38
#define TABLES 2
#define QT "SELECT `K`, `A`.`ID` FROM `A`, `B` WHERE `NS` = `T` OR `N` > ?"
#define MATCH aS == bT || aN > w[0]
#define PARAMS "i"
#define COLS {1,K_},{0,ID_}
#elif Q == 39
#define TABLES 2
#define QT "SELECT `B`.`ID`, `A`.`ID` FROM `A`, `B` WHERE (`A`.`ID` = `B`.`ID` OR `T` IS NULL) AND (`NM` > `B`.`ID` OR `NS` = 'b')"
#define MATCH (aID == bID || !bT) && (aM > bID || aS == 2)
#define COLS {1,BID_},{0,ID_}
/* order */
#elif Q == 50
#define QT "SELECT * FROM `A` ORDER BY `N`"
#define MATCH true
#define KEYS {0,N_}
#elif Q == 51
#define QT "SELECT * FROM `A` ORDER BY `NS`, `N`"
#define MATCH true
#define KEYS {0,S_},{0,N_}
#elif Q == 52
#define QT "SELECT `ID` FROM `A` WHERE `N` <> 3 ORDER BY `NM`, `NS`, `N`"
#define MATCH aN != 3
#define KEYS {0,M_},{0,S_},{0,N_}
#define COLS {0,ID_}
#elif Q == 53
#define TABLES 2
#define QT "SELECT `K`, `A`.`ID` FROM `A`, `B` ORDER BY `T`, `N`"
#define MATCH true
#define KEYS {1,T_},{0,N_}
#define COLS {1,K_},{0,ID_}
#elif Q == 54
#define TABLES 2
#define QT "SELECT `K`, `NS` FROM `A`, `B` WHERE `A`.`ID` <> `B`.`ID` ORDER BY `A`.`NS`, `B`.`ID`, `A`.`NM`"
#define MATCH aID != bID
#define KEYS {0,S_},{1,BID_},{0,M_}
#define COLS {1,K_},{0,S_}
#elif Q == 55
#define QT "SELECT `NS` FROM `A` WHERE `NS` = ? ORDER BY `NM`"
#define MATCH aS == s[0]
#define PARAMS "s"
#define KEYS {0,M_}
#define COLS {0,S_}
/* distinct */
#elif Q == 60
#define QT "SELECT DISTINCT `NS` FROM `A`"
#define MATCH true
#define DISTINCT
#define COLS {0,S_}
#elif Q == 61
#define QT "SELECT DISTINCT `NS`, `NM` FROM `A`"
#define MATCH true
#define DISTINCT
#define COLS {0,S_},{0,M_}
#elif Q == 62
#define QT "SELECT DISTINCT `N` FROM `A` WHERE `NM` > 5 ORDER BY `N`"
#define MATCH aM > 5
#define DISTINCT
#define KEYS {0,N_}
#define COLS {0,N_}
#elif Q == 63
#define TABLES 2
#define QT "SELECT DISTINCT `NS`, `T` FROM `A`, `B` WHERE `A`.`ID` <> `B`.`ID`"
#define MATCH aID != bID
#define DISTINCT
#define COLS {0,S_},{1,T_}
#elif Q == 64
#define QT "SELECT DISTINCT `NM`, `N` FROM `A` WHERE `NS` <> ?"
#define MATCH aS != s[0]
#define PARAMS "s"
#define DISTINCT
#define COLS {0,M_},{0,N_}
/* projection */
#elif Q == 70
#define QT "SELECT `N`, `ID` FROM `A`"
#define MATCH true
#define COLS {0,N_},{0,ID_}
#elif Q == 71
#define QT "SELECT `NM`, `NS`, `NM` FROM `A`"
#define MATCH true
#define COLS {0,M_},{0,S_},{0,M_}
#elif Q == 72
#define QT "select A.NS , `A`.`ID` from A where N<=3"
#define MATCH aN <= 3
#define COLS {0,S_},{0,ID_}
#elif Q == 73
#define QT "SELECT `T`,`B`.`ID`,`A`.`ID`,`N` FROM `A`,`B`"
#define MATCH true
#define TABLES 2
#define COLS {1,T_},{1,BID_},{0,ID_},{0,N_}
/* update: SETS(i) writes the row as it must be */
#elif Q == 100
#define MAXCOLS 1
#define QT "UPDATE `A` SET `N` = 5"
#define MATCH true
#define SETS t->val[i][N_] = 0x80000005u;
#elif Q == 101
#define MAXCOLS 2
#define QT "UPDATE `A` SET `NS` = ?, `NM` = ? WHERE `N` > ?"
#define MATCH aN > w[2]
#define PARAMS "sis"
#define SETS t->val[i][S_] = s[0]; t->val[i][M_] = num2(w[1]);
#undef PARAMS
#define PARAMS "sji"
#elif Q == 102
#define MAXCOLS 3
#define QT "UPDATE `A` SET `NM` = -7, `N` = ?, `NS` = 'c' WHERE `NS` = ? AND `ID` <> ?"
#define MATCH aS == s[1] && aID != w[2]
#define PARAMS "isi"
#define SETS t->val[i][M_] = 0x8000 - 7; t->val[i][N_] = num4(w[0]); t->val[i][S_] = 3;
#elif Q == 103
#define MAXCOLS 1
#define QT "UPDATE `A` SET `NS` = 'a' WHERE `NM` IS NULL"
#define MATCH !a(M_)
#define SETS t->val[i][S_] = 1;
#elif Q == 104
#define MAXCOLS 1
#define QT "UPDATE `A` SET `NS` = ? WHERE `NS` = ?"
#define MATCH aS == s[1]
#define PARAMS "ss"
#define SETS t->val[i][S_] = s[0];
/* insert: ROW is the row that must be added, AT where */
#elif Q == 110
#define MAXCOLS 4
#define QT "INSERT INTO `A` (`ID`, `NS`, `N`, `NM`) VALUES (?, ?, ?, ?)"
#define PARAMS "jsij"
#define ROW { num2(w[0]), s[1], num4(w[2]), num2(w[3]) }
#elif Q == 111
#define MAXCOLS 2
#define QT "INSERT INTO `A` (`N`, `ID`) VALUES (-12, ?)"
#define PARAMS "j"
#define ROW { num2(w[0]), 0, 0x80000000u - 12, 0 }
#elif Q == 112
#define MAXCOLS 3
#define QT "INSERT INTO `A` (`NM`, `NS`, `ID`) VALUES (?, 'b', 77) TEMPORARY"
#define PARAMS "j"
#define ROW { 0x8000 + 77, 2, 0, num2(w[0]) }
#define TEMP true
#elif Q == 113
#define MAXCOLS 2
#define QT "INSERT INTO `A` (`NS`, `N`) VALUES (?, ?)"
#define PARAMS "si"
#define ROW { 0, s[0], num4(w[1]), 0 }
#define AT 0
#elif Q == 114
#define MAXCOLS 4
#define QT "INSERT INTO `A` (`ID`, `NS`, `NM`, `N`) VALUES (5, ?, 6, ?)"
#define PARAMS "si"
#define ROW { 0x8005, s[0], num4(w[1]), 0x8006 }
/* delete */
#elif Q == 120
#define QT "DELETE FROM `A`"
#define MATCH true
#define DEL
#elif Q == 121
#define QT "DELETE FROM `A` WHERE `N` > 3"
#define MATCH aN > 3
#define DEL
#elif Q == 122
#define QT "DELETE FROM `A` WHERE `NS` = ? OR `NM` < ?"
#define MATCH aS == s[0] || aM < w[1]
#define PARAMS "si"
#define DEL
#elif Q == 123
#define KEYS {0,M_}
#define QT "DELETE FROM `A` WHERE `N` <> 3 ORDER BY `NM`"
#define MATCH aN != 3
#define DEL
/* refused: RUNS says whether only running it fails */
#elif Q == 140
#define MAXCOLS 1
#define QT "SELECT `X` FROM `A`"
#define RUNS 0
#elif Q == 141
#define QT "SELECT * FROM `A` WHERE `X` = 1"
#define RUNS 0
#elif Q == 142
#define QT "SELECT * FROM `C`"
#define RUNS 0
#elif Q == 143
#define QT "SELECT * FROM `A` WHERE `NS` > 'a'"
#define RUNS 0
#elif Q == 144
#define QT "SELECT * FROM `A` WHERE `NS` = ?"
#define RUNS 1
#elif Q == 145
#define KEYS {0,M_}
#define QT "SELECT * FROM `A` WHERE `N` = ? ORDER BY `NM`"
#define RUNS 1
#elif Q == 146
#define MAXCOLS 2
#define QT "INSERT INTO `A` (`ID`, `NS`) VALUES (1, ?)"
#define RUNS 1
#elif Q == 147
#define MAXCOLS 1
#define QT "UPDATE `A` SET `NS` = ?"
#define RUNS 1
#elif Q == 148
#define MAXCOLS 2
#define QT "INSERT INTO `A` (`ID`, `X`) VALUES (1, 2)"
#define RUNS 0
#elif Q == 149
#define MAXCOLS 1
#define QT "UPDATE `A` SET `X` = 1"
#define RUNS 0
#elif Q == 150
#define QT "SELECT * FROM `A` WHERE `B`.`ID` = 1"
#define RUNS 0
#elif Q == 151
#define QT "SELECT * FROM `A` WHERE `N` = 2147483648"
#define RUNS 0
#elif Q == 152
#define KEYS {0,M_}
#define QT "SELECT * FROM `A` ORDER BY `X`"
#define RUNS 0
#elif Q == 153
#define QT "DELETE FROM `A` WHERE `NS` = ?"
#define RUNS 1
#elif Q == 154
#define MAXCOLS 2
#define QT "INSERT INTO `A` (`ID`, `NS`) VALUES (1)"
#define RUNS 0
#endif
