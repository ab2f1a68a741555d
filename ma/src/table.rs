// Generated by tools/gen_arity.py.

entries! {
    1 "ascending" (T0 v0 0);
    2 "ascending" (T0 v0 0) (T1 v1 1);
    2 "descending" (T1 v0 0) (T0 v1 1);
    2 "high" (T15 v0 0) (T14 v1 1);
    3 "ascending" (T0 v0 0) (T1 v1 1) (T2 v2 2);
    3 "descending" (T2 v0 0) (T1 v1 1) (T0 v2 2);
    3 "high" (T15 v0 0) (T14 v1 1) (T13 v2 2);
    3 "mixed" (T2 v0 0) (T0 v1 1) (T1 v2 2);
    4 "ascending" (T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3);
    4 "descending" (T3 v0 0) (T2 v1 1) (T1 v2 2) (T0 v3 3);
    4 "high" (T15 v0 0) (T14 v1 1) (T13 v2 2) (T12 v3 3);
    4 "mixed" (T2 v0 0) (T0 v1 1) (T3 v2 2) (T1 v3 3);
    5 "ascending" (T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4);
    5 "descending" (T4 v0 0) (T3 v1 1) (T2 v2 2) (T1 v3 3) (T0 v4 4);
    5 "high" (T15 v0 0) (T14 v1 1) (T13 v2 2) (T12 v3 3) (T11 v4 4);
    5 "mixed" (T2 v0 0) (T0 v1 1) (T3 v2 2) (T1 v3 3) (T4 v4 4);
    6 "ascending" (T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5);
    6 "descending" (T5 v0 0) (T4 v1 1) (T3 v2 2) (T2 v3 3) (T1 v4 4) (T0 v5 5);
    6 "high" (T15 v0 0) (T14 v1 1) (T13 v2 2) (T12 v3 3) (T11 v4 4) (T10 v5 5);
    6 "mixed" (T2 v0 0) (T0 v1 1) (T5 v2 2) (T3 v3 3) (T1 v4 4) (T4 v5 5);
    7 "ascending" (T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6);
    7 "descending" (T6 v0 0) (T5 v1 1) (T4 v2 2) (T3 v3 3) (T2 v4 4) (T1 v5 5) (T0 v6 6);
    7 "high" (T15 v0 0) (T14 v1 1) (T13 v2 2) (T12 v3 3) (T11 v4 4) (T10 v5 5) (T9 v6 6);
    7 "mixed" (T2 v0 0) (T0 v1 1) (T5 v2 2) (T3 v3 3) (T1 v4 4) (T6 v5 5) (T4 v6 6);
    8 "ascending" (T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7);
    8 "descending" (T7 v0 0) (T6 v1 1) (T5 v2 2) (T4 v3 3) (T3 v4 4) (T2 v5 5) (T1 v6 6) (T0 v7 7);
    8 "high" (T15 v0 0) (T14 v1 1) (T13 v2 2) (T12 v3 3) (T11 v4 4) (T10 v5 5) (T9 v6 6) (T8 v7 7);
    8 "mixed" (T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3) (T3 v4 4) (T1 v5 5) (T6 v6 6) (T4 v7 7);
    9 "ascending" (T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8);
    9 "descending" (T8 v0 0) (T7 v1 1) (T6 v2 2) (T5 v3 3) (T4 v4 4) (T3 v5 5) (T2 v6 6) (T1 v7 7) (T0 v8 8);
    9 "high" (T15 v0 0) (T14 v1 1) (T13 v2 2) (T12 v3 3) (T11 v4 4) (T10 v5 5) (T9 v6 6) (T8 v7 7) (T7 v8 8);
    9 "mixed" (T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3) (T3 v4 4) (T8 v5 5) (T1 v6 6) (T6 v7 7) (T4 v8 8);
    10 "ascending" (T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9);
    10 "descending" (T9 v0 0) (T8 v1 1) (T7 v2 2) (T6 v3 3) (T5 v4 4) (T4 v5 5) (T3 v6 6) (T2 v7 7) (T1 v8 8) (T0 v9 9);
    10 "high" (T15 v0 0) (T14 v1 1) (T13 v2 2) (T12 v3 3) (T11 v4 4) (T10 v5 5) (T9 v6 6) (T8 v7 7) (T7 v8 8) (T6 v9 9);
    10 "mixed" (T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3) (T3 v4 4) (T8 v5 5) (T1 v6 6) (T6 v7 7) (T4 v8 8) (T9 v9 9);
    11 "ascending" (T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10);
    11 "descending" (T10 v0 0) (T9 v1 1) (T8 v2 2) (T7 v3 3) (T6 v4 4) (T5 v5 5) (T4 v6 6) (T3 v7 7) (T2 v8 8) (T1 v9 9) (T0 v10 10);
    11 "high" (T15 v0 0) (T14 v1 1) (T13 v2 2) (T12 v3 3) (T11 v4 4) (T10 v5 5) (T9 v6 6) (T8 v7 7) (T7 v8 8) (T6 v9 9) (T5 v10 10);
    11 "mixed" (T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3) (T10 v4 4) (T3 v5 5) (T8 v6 6) (T1 v7 7) (T6 v8 8) (T4 v9 9) (T9 v10 10);
    12 "ascending" (T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11);
    12 "descending" (T11 v0 0) (T10 v1 1) (T9 v2 2) (T8 v3 3) (T7 v4 4) (T6 v5 5) (T5 v6 6) (T4 v7 7) (T3 v8 8) (T2 v9 9) (T1 v10 10) (T0 v11 11);
    12 "high" (T15 v0 0) (T14 v1 1) (T13 v2 2) (T12 v3 3) (T11 v4 4) (T10 v5 5) (T9 v6 6) (T8 v7 7) (T7 v8 8) (T6 v9 9) (T5 v10 10) (T4 v11 11);
    12 "mixed" (T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3) (T10 v4 4) (T3 v5 5) (T8 v6 6) (T1 v7 7) (T6 v8 8) (T11 v9 9) (T4 v10 10) (T9 v11 11);
    13 "ascending" (T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12);
    13 "descending" (T12 v0 0) (T11 v1 1) (T10 v2 2) (T9 v3 3) (T8 v4 4) (T7 v5 5) (T6 v6 6) (T5 v7 7) (T4 v8 8) (T3 v9 9) (T2 v10 10) (T1 v11 11) (T0 v12 12);
    13 "high" (T15 v0 0) (T14 v1 1) (T13 v2 2) (T12 v3 3) (T11 v4 4) (T10 v5 5) (T9 v6 6) (T8 v7 7) (T7 v8 8) (T6 v9 9) (T5 v10 10) (T4 v11 11) (T3 v12 12);
    13 "mixed" (T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T1 v8 8) (T6 v9 9) (T11 v10 10) (T4 v11 11) (T9 v12 12);
    14 "ascending" (T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13);
    14 "descending" (T13 v0 0) (T12 v1 1) (T11 v2 2) (T10 v3 3) (T9 v4 4) (T8 v5 5) (T7 v6 6) (T6 v7 7) (T5 v8 8) (T4 v9 9) (T3 v10 10) (T2 v11 11) (T1 v12 12) (T0 v13 13);
    14 "high" (T15 v0 0) (T14 v1 1) (T13 v2 2) (T12 v3 3) (T11 v4 4) (T10 v5 5) (T9 v6 6) (T8 v7 7) (T7 v8 8) (T6 v9 9) (T5 v10 10) (T4 v11 11) (T3 v12 12) (T2 v13 13);
    14 "mixed" (T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T13 v8 8) (T1 v9 9) (T6 v10 10) (T11 v11 11) (T4 v12 12) (T9 v13 13);
    15 "ascending" (T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13) (T14 v14 14);
    15 "descending" (T14 v0 0) (T13 v1 1) (T12 v2 2) (T11 v3 3) (T10 v4 4) (T9 v5 5) (T8 v6 6) (T7 v7 7) (T6 v8 8) (T5 v9 9) (T4 v10 10) (T3 v11 11) (T2 v12 12) (T1 v13 13) (T0 v14 14);
    15 "high" (T15 v0 0) (T14 v1 1) (T13 v2 2) (T12 v3 3) (T11 v4 4) (T10 v5 5) (T9 v6 6) (T8 v7 7) (T7 v8 8) (T6 v9 9) (T5 v10 10) (T4 v11 11) (T3 v12 12) (T2 v13 13) (T1 v14 14);
    15 "mixed" (T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T13 v8 8) (T1 v9 9) (T6 v10 10) (T11 v11 11) (T4 v12 12) (T9 v13 13) (T14 v14 14);
    16 "ascending" (T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13) (T14 v14 14) (T15 v15 15);
    16 "descending" (T15 v0 0) (T14 v1 1) (T13 v2 2) (T12 v3 3) (T11 v4 4) (T10 v5 5) (T9 v6 6) (T8 v7 7) (T7 v8 8) (T6 v9 9) (T5 v10 10) (T4 v11 11) (T3 v12 12) (T2 v13 13) (T1 v14 14) (T0 v15 15);
    16 "high" (T15 v0 0) (T14 v1 1) (T13 v2 2) (T12 v3 3) (T11 v4 4) (T10 v5 5) (T9 v6 6) (T8 v7 7) (T7 v8 8) (T6 v9 9) (T5 v10 10) (T4 v11 11) (T3 v12 12) (T2 v13 13) (T1 v14 14) (T0 v15 15);
    16 "mixed" (T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T15 v6 6) (T3 v7 7) (T8 v8 8) (T13 v9 9) (T1 v10 10) (T6 v11 11) (T11 v12 12) (T4 v13 13) (T9 v14 14) (T14 v15 15);
}

positions! {
    2 "ascending" [] (T0 v0 0) [(T1 v1 1)];
    2 "ascending" [(T0 v0 0)] (T1 v1 1) [];
    3 "mixed" [] (T2 v0 0) [(T0 v1 1) (T1 v2 2)];
    3 "mixed" [(T2 v0 0)] (T0 v1 1) [(T1 v2 2)];
    3 "mixed" [(T2 v0 0) (T0 v1 1)] (T1 v2 2) [];
    4 "ascending" [] (T0 v0 0) [(T1 v1 1) (T2 v2 2) (T3 v3 3)];
    4 "ascending" [(T0 v0 0)] (T1 v1 1) [(T2 v2 2) (T3 v3 3)];
    4 "ascending" [(T0 v0 0) (T1 v1 1)] (T2 v2 2) [(T3 v3 3)];
    4 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2)] (T3 v3 3) [];
    5 "mixed" [] (T2 v0 0) [(T0 v1 1) (T3 v2 2) (T1 v3 3) (T4 v4 4)];
    5 "mixed" [(T2 v0 0)] (T0 v1 1) [(T3 v2 2) (T1 v3 3) (T4 v4 4)];
    5 "mixed" [(T2 v0 0) (T0 v1 1)] (T3 v2 2) [(T1 v3 3) (T4 v4 4)];
    5 "mixed" [(T2 v0 0) (T0 v1 1) (T3 v2 2)] (T1 v3 3) [(T4 v4 4)];
    5 "mixed" [(T2 v0 0) (T0 v1 1) (T3 v2 2) (T1 v3 3)] (T4 v4 4) [];
    6 "ascending" [] (T0 v0 0) [(T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5)];
    6 "ascending" [(T0 v0 0)] (T1 v1 1) [(T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5)];
    6 "ascending" [(T0 v0 0) (T1 v1 1)] (T2 v2 2) [(T3 v3 3) (T4 v4 4) (T5 v5 5)];
    6 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2)] (T3 v3 3) [(T4 v4 4) (T5 v5 5)];
    6 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3)] (T4 v4 4) [(T5 v5 5)];
    6 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4)] (T5 v5 5) [];
    7 "mixed" [] (T2 v0 0) [(T0 v1 1) (T5 v2 2) (T3 v3 3) (T1 v4 4) (T6 v5 5) (T4 v6 6)];
    7 "mixed" [(T2 v0 0)] (T0 v1 1) [(T5 v2 2) (T3 v3 3) (T1 v4 4) (T6 v5 5) (T4 v6 6)];
    7 "mixed" [(T2 v0 0) (T0 v1 1)] (T5 v2 2) [(T3 v3 3) (T1 v4 4) (T6 v5 5) (T4 v6 6)];
    7 "mixed" [(T2 v0 0) (T0 v1 1) (T5 v2 2)] (T3 v3 3) [(T1 v4 4) (T6 v5 5) (T4 v6 6)];
    7 "mixed" [(T2 v0 0) (T0 v1 1) (T5 v2 2) (T3 v3 3)] (T1 v4 4) [(T6 v5 5) (T4 v6 6)];
    7 "mixed" [(T2 v0 0) (T0 v1 1) (T5 v2 2) (T3 v3 3) (T1 v4 4)] (T6 v5 5) [(T4 v6 6)];
    7 "mixed" [(T2 v0 0) (T0 v1 1) (T5 v2 2) (T3 v3 3) (T1 v4 4) (T6 v5 5)] (T4 v6 6) [];
    8 "ascending" [] (T0 v0 0) [(T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7)];
    8 "ascending" [(T0 v0 0)] (T1 v1 1) [(T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7)];
    8 "ascending" [(T0 v0 0) (T1 v1 1)] (T2 v2 2) [(T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7)];
    8 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2)] (T3 v3 3) [(T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7)];
    8 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3)] (T4 v4 4) [(T5 v5 5) (T6 v6 6) (T7 v7 7)];
    8 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4)] (T5 v5 5) [(T6 v6 6) (T7 v7 7)];
    8 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5)] (T6 v6 6) [(T7 v7 7)];
    8 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6)] (T7 v7 7) [];
    9 "mixed" [] (T2 v0 0) [(T7 v1 1) (T0 v2 2) (T5 v3 3) (T3 v4 4) (T8 v5 5) (T1 v6 6) (T6 v7 7) (T4 v8 8)];
    9 "mixed" [(T2 v0 0)] (T7 v1 1) [(T0 v2 2) (T5 v3 3) (T3 v4 4) (T8 v5 5) (T1 v6 6) (T6 v7 7) (T4 v8 8)];
    9 "mixed" [(T2 v0 0) (T7 v1 1)] (T0 v2 2) [(T5 v3 3) (T3 v4 4) (T8 v5 5) (T1 v6 6) (T6 v7 7) (T4 v8 8)];
    9 "mixed" [(T2 v0 0) (T7 v1 1) (T0 v2 2)] (T5 v3 3) [(T3 v4 4) (T8 v5 5) (T1 v6 6) (T6 v7 7) (T4 v8 8)];
    9 "mixed" [(T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3)] (T3 v4 4) [(T8 v5 5) (T1 v6 6) (T6 v7 7) (T4 v8 8)];
    9 "mixed" [(T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3) (T3 v4 4)] (T8 v5 5) [(T1 v6 6) (T6 v7 7) (T4 v8 8)];
    9 "mixed" [(T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3) (T3 v4 4) (T8 v5 5)] (T1 v6 6) [(T6 v7 7) (T4 v8 8)];
    9 "mixed" [(T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3) (T3 v4 4) (T8 v5 5) (T1 v6 6)] (T6 v7 7) [(T4 v8 8)];
    9 "mixed" [(T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3) (T3 v4 4) (T8 v5 5) (T1 v6 6) (T6 v7 7)] (T4 v8 8) [];
    10 "ascending" [] (T0 v0 0) [(T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9)];
    10 "ascending" [(T0 v0 0)] (T1 v1 1) [(T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9)];
    10 "ascending" [(T0 v0 0) (T1 v1 1)] (T2 v2 2) [(T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9)];
    10 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2)] (T3 v3 3) [(T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9)];
    10 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3)] (T4 v4 4) [(T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9)];
    10 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4)] (T5 v5 5) [(T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9)];
    10 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5)] (T6 v6 6) [(T7 v7 7) (T8 v8 8) (T9 v9 9)];
    10 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6)] (T7 v7 7) [(T8 v8 8) (T9 v9 9)];
    10 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7)] (T8 v8 8) [(T9 v9 9)];
    10 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8)] (T9 v9 9) [];
    11 "mixed" [] (T2 v0 0) [(T7 v1 1) (T0 v2 2) (T5 v3 3) (T10 v4 4) (T3 v5 5) (T8 v6 6) (T1 v7 7) (T6 v8 8) (T4 v9 9) (T9 v10 10)];
    11 "mixed" [(T2 v0 0)] (T7 v1 1) [(T0 v2 2) (T5 v3 3) (T10 v4 4) (T3 v5 5) (T8 v6 6) (T1 v7 7) (T6 v8 8) (T4 v9 9) (T9 v10 10)];
    11 "mixed" [(T2 v0 0) (T7 v1 1)] (T0 v2 2) [(T5 v3 3) (T10 v4 4) (T3 v5 5) (T8 v6 6) (T1 v7 7) (T6 v8 8) (T4 v9 9) (T9 v10 10)];
    11 "mixed" [(T2 v0 0) (T7 v1 1) (T0 v2 2)] (T5 v3 3) [(T10 v4 4) (T3 v5 5) (T8 v6 6) (T1 v7 7) (T6 v8 8) (T4 v9 9) (T9 v10 10)];
    11 "mixed" [(T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3)] (T10 v4 4) [(T3 v5 5) (T8 v6 6) (T1 v7 7) (T6 v8 8) (T4 v9 9) (T9 v10 10)];
    11 "mixed" [(T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3) (T10 v4 4)] (T3 v5 5) [(T8 v6 6) (T1 v7 7) (T6 v8 8) (T4 v9 9) (T9 v10 10)];
    11 "mixed" [(T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3) (T10 v4 4) (T3 v5 5)] (T8 v6 6) [(T1 v7 7) (T6 v8 8) (T4 v9 9) (T9 v10 10)];
    11 "mixed" [(T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3) (T10 v4 4) (T3 v5 5) (T8 v6 6)] (T1 v7 7) [(T6 v8 8) (T4 v9 9) (T9 v10 10)];
    11 "mixed" [(T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3) (T10 v4 4) (T3 v5 5) (T8 v6 6) (T1 v7 7)] (T6 v8 8) [(T4 v9 9) (T9 v10 10)];
    11 "mixed" [(T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3) (T10 v4 4) (T3 v5 5) (T8 v6 6) (T1 v7 7) (T6 v8 8)] (T4 v9 9) [(T9 v10 10)];
    11 "mixed" [(T2 v0 0) (T7 v1 1) (T0 v2 2) (T5 v3 3) (T10 v4 4) (T3 v5 5) (T8 v6 6) (T1 v7 7) (T6 v8 8) (T4 v9 9)] (T9 v10 10) [];
    12 "ascending" [] (T0 v0 0) [(T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11)];
    12 "ascending" [(T0 v0 0)] (T1 v1 1) [(T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11)];
    12 "ascending" [(T0 v0 0) (T1 v1 1)] (T2 v2 2) [(T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11)];
    12 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2)] (T3 v3 3) [(T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11)];
    12 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3)] (T4 v4 4) [(T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11)];
    12 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4)] (T5 v5 5) [(T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11)];
    12 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5)] (T6 v6 6) [(T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11)];
    12 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6)] (T7 v7 7) [(T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11)];
    12 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7)] (T8 v8 8) [(T9 v9 9) (T10 v10 10) (T11 v11 11)];
    12 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8)] (T9 v9 9) [(T10 v10 10) (T11 v11 11)];
    12 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9)] (T10 v10 10) [(T11 v11 11)];
    12 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10)] (T11 v11 11) [];
    13 "mixed" [] (T2 v0 0) [(T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T1 v8 8) (T6 v9 9) (T11 v10 10) (T4 v11 11) (T9 v12 12)];
    13 "mixed" [(T2 v0 0)] (T7 v1 1) [(T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T1 v8 8) (T6 v9 9) (T11 v10 10) (T4 v11 11) (T9 v12 12)];
    13 "mixed" [(T2 v0 0) (T7 v1 1)] (T12 v2 2) [(T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T1 v8 8) (T6 v9 9) (T11 v10 10) (T4 v11 11) (T9 v12 12)];
    13 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2)] (T0 v3 3) [(T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T1 v8 8) (T6 v9 9) (T11 v10 10) (T4 v11 11) (T9 v12 12)];
    13 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3)] (T5 v4 4) [(T10 v5 5) (T3 v6 6) (T8 v7 7) (T1 v8 8) (T6 v9 9) (T11 v10 10) (T4 v11 11) (T9 v12 12)];
    13 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4)] (T10 v5 5) [(T3 v6 6) (T8 v7 7) (T1 v8 8) (T6 v9 9) (T11 v10 10) (T4 v11 11) (T9 v12 12)];
    13 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5)] (T3 v6 6) [(T8 v7 7) (T1 v8 8) (T6 v9 9) (T11 v10 10) (T4 v11 11) (T9 v12 12)];
    13 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6)] (T8 v7 7) [(T1 v8 8) (T6 v9 9) (T11 v10 10) (T4 v11 11) (T9 v12 12)];
    13 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7)] (T1 v8 8) [(T6 v9 9) (T11 v10 10) (T4 v11 11) (T9 v12 12)];
    13 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T1 v8 8)] (T6 v9 9) [(T11 v10 10) (T4 v11 11) (T9 v12 12)];
    13 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T1 v8 8) (T6 v9 9)] (T11 v10 10) [(T4 v11 11) (T9 v12 12)];
    13 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T1 v8 8) (T6 v9 9) (T11 v10 10)] (T4 v11 11) [(T9 v12 12)];
    13 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T1 v8 8) (T6 v9 9) (T11 v10 10) (T4 v11 11)] (T9 v12 12) [];
    14 "ascending" [] (T0 v0 0) [(T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13)];
    14 "ascending" [(T0 v0 0)] (T1 v1 1) [(T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13)];
    14 "ascending" [(T0 v0 0) (T1 v1 1)] (T2 v2 2) [(T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13)];
    14 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2)] (T3 v3 3) [(T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13)];
    14 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3)] (T4 v4 4) [(T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13)];
    14 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4)] (T5 v5 5) [(T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13)];
    14 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5)] (T6 v6 6) [(T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13)];
    14 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6)] (T7 v7 7) [(T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13)];
    14 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7)] (T8 v8 8) [(T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13)];
    14 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8)] (T9 v9 9) [(T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13)];
    14 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9)] (T10 v10 10) [(T11 v11 11) (T12 v12 12) (T13 v13 13)];
    14 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10)] (T11 v11 11) [(T12 v12 12) (T13 v13 13)];
    14 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11)] (T12 v12 12) [(T13 v13 13)];
    14 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12)] (T13 v13 13) [];
    15 "mixed" [] (T2 v0 0) [(T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T13 v8 8) (T1 v9 9) (T6 v10 10) (T11 v11 11) (T4 v12 12) (T9 v13 13) (T14 v14 14)];
    15 "mixed" [(T2 v0 0)] (T7 v1 1) [(T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T13 v8 8) (T1 v9 9) (T6 v10 10) (T11 v11 11) (T4 v12 12) (T9 v13 13) (T14 v14 14)];
    15 "mixed" [(T2 v0 0) (T7 v1 1)] (T12 v2 2) [(T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T13 v8 8) (T1 v9 9) (T6 v10 10) (T11 v11 11) (T4 v12 12) (T9 v13 13) (T14 v14 14)];
    15 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2)] (T0 v3 3) [(T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T13 v8 8) (T1 v9 9) (T6 v10 10) (T11 v11 11) (T4 v12 12) (T9 v13 13) (T14 v14 14)];
    15 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3)] (T5 v4 4) [(T10 v5 5) (T3 v6 6) (T8 v7 7) (T13 v8 8) (T1 v9 9) (T6 v10 10) (T11 v11 11) (T4 v12 12) (T9 v13 13) (T14 v14 14)];
    15 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4)] (T10 v5 5) [(T3 v6 6) (T8 v7 7) (T13 v8 8) (T1 v9 9) (T6 v10 10) (T11 v11 11) (T4 v12 12) (T9 v13 13) (T14 v14 14)];
    15 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5)] (T3 v6 6) [(T8 v7 7) (T13 v8 8) (T1 v9 9) (T6 v10 10) (T11 v11 11) (T4 v12 12) (T9 v13 13) (T14 v14 14)];
    15 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6)] (T8 v7 7) [(T13 v8 8) (T1 v9 9) (T6 v10 10) (T11 v11 11) (T4 v12 12) (T9 v13 13) (T14 v14 14)];
    15 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7)] (T13 v8 8) [(T1 v9 9) (T6 v10 10) (T11 v11 11) (T4 v12 12) (T9 v13 13) (T14 v14 14)];
    15 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T13 v8 8)] (T1 v9 9) [(T6 v10 10) (T11 v11 11) (T4 v12 12) (T9 v13 13) (T14 v14 14)];
    15 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T13 v8 8) (T1 v9 9)] (T6 v10 10) [(T11 v11 11) (T4 v12 12) (T9 v13 13) (T14 v14 14)];
    15 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T13 v8 8) (T1 v9 9) (T6 v10 10)] (T11 v11 11) [(T4 v12 12) (T9 v13 13) (T14 v14 14)];
    15 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T13 v8 8) (T1 v9 9) (T6 v10 10) (T11 v11 11)] (T4 v12 12) [(T9 v13 13) (T14 v14 14)];
    15 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T13 v8 8) (T1 v9 9) (T6 v10 10) (T11 v11 11) (T4 v12 12)] (T9 v13 13) [(T14 v14 14)];
    15 "mixed" [(T2 v0 0) (T7 v1 1) (T12 v2 2) (T0 v3 3) (T5 v4 4) (T10 v5 5) (T3 v6 6) (T8 v7 7) (T13 v8 8) (T1 v9 9) (T6 v10 10) (T11 v11 11) (T4 v12 12) (T9 v13 13)] (T14 v14 14) [];
    16 "ascending" [] (T0 v0 0) [(T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13) (T14 v14 14) (T15 v15 15)];
    16 "ascending" [(T0 v0 0)] (T1 v1 1) [(T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13) (T14 v14 14) (T15 v15 15)];
    16 "ascending" [(T0 v0 0) (T1 v1 1)] (T2 v2 2) [(T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13) (T14 v14 14) (T15 v15 15)];
    16 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2)] (T3 v3 3) [(T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13) (T14 v14 14) (T15 v15 15)];
    16 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3)] (T4 v4 4) [(T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13) (T14 v14 14) (T15 v15 15)];
    16 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4)] (T5 v5 5) [(T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13) (T14 v14 14) (T15 v15 15)];
    16 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5)] (T6 v6 6) [(T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13) (T14 v14 14) (T15 v15 15)];
    16 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6)] (T7 v7 7) [(T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13) (T14 v14 14) (T15 v15 15)];
    16 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7)] (T8 v8 8) [(T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13) (T14 v14 14) (T15 v15 15)];
    16 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8)] (T9 v9 9) [(T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13) (T14 v14 14) (T15 v15 15)];
    16 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9)] (T10 v10 10) [(T11 v11 11) (T12 v12 12) (T13 v13 13) (T14 v14 14) (T15 v15 15)];
    16 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10)] (T11 v11 11) [(T12 v12 12) (T13 v13 13) (T14 v14 14) (T15 v15 15)];
    16 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11)] (T12 v12 12) [(T13 v13 13) (T14 v14 14) (T15 v15 15)];
    16 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12)] (T13 v13 13) [(T14 v14 14) (T15 v15 15)];
    16 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13)] (T14 v14 14) [(T15 v15 15)];
    16 "ascending" [(T0 v0 0) (T1 v1 1) (T2 v2 2) (T3 v3 3) (T4 v4 4) (T5 v5 5) (T6 v6 6) (T7 v7 7) (T8 v8 8) (T9 v9 9) (T10 v10 10) (T11 v11 11) (T12 v12 12) (T13 v13 13) (T14 v14 14)] (T15 v15 15) [];
}
