// GENERATED by tools/gen/c03.py
pub const N_PLAIN: u64 = 196;
pub fn plain(r: &mut Rng, k: usize) -> (WasmInstruction, Vec<u8>) {
    match k {
        0 => {  (WasmInstruction::Unreachable, cat(vec![vec![0]])) }
        1 => {  (WasmInstruction::Nop, cat(vec![vec![1]])) }
        2 => { let v0 = num(r); (WasmInstruction::Br { label_idx: LabelIdx { l: v0 } }, cat(vec![vec![12], u(v0 as u128)])) }
        3 => { let v0 = num(r); (WasmInstruction::BrIf { label_idx: LabelIdx { l: v0 } }, cat(vec![vec![13], u(v0 as u128)])) }
        4 => { let v0: Vec<u32> = (0..r.below(200)).map(|_| num(r)).collect(); let v1 = num(r); (WasmInstruction::BrTable { labels: v0.iter().map(|x| LabelIdx { l: *x }).collect(), label_idx: LabelIdx { l: v1 } }, cat(vec![vec![14], vecof(v0.iter().map(|x| u(*x as u128)).collect()), u(v1 as u128)])) }
        5 => {  (WasmInstruction::Return, cat(vec![vec![15]])) }
        6 => { let v0 = num(r); (WasmInstruction::Call { func_idx: FuncIdx { x: v0 } }, cat(vec![vec![16], u(v0 as u128)])) }
        7 => { let v0 = num(r); let v1 = num(r); (WasmInstruction::CallIndirect { type_idx: TypeIdx { x: v0 }, table_idx: TableIdx { x: v1 } }, cat(vec![vec![17], u(v0 as u128), u(v1 as u128)])) }
        8 => { let v0 = r.chance(1, 2); (WasmInstruction::RefNull { ref_type: if v0 { RefType::FuncRef } else { RefType::ExternRef } }, cat(vec![vec![208], vec![if v0 { 0x70 } else { 0x6f }]])) }
        9 => {  (WasmInstruction::RefIsNull, cat(vec![vec![209]])) }
        10 => { let v0 = num(r); (WasmInstruction::RefFunc { func_idx: FuncIdx { x: v0 } }, cat(vec![vec![210], u(v0 as u128)])) }
        11 => {  (WasmInstruction::Drop, cat(vec![vec![26]])) }
        12 => {  (WasmInstruction::Select, cat(vec![vec![27]])) }
        13 => { let (v0, w0): (Vec<_>, Vec<_>) = (0..r.below(5)).map(|_| valtype(r)).unzip(); (WasmInstruction::SelectTyped { types: v0 }, cat(vec![vec![28], vecof(w0)])) }
        14 => { let v0 = num(r); (WasmInstruction::LocalGet { local_idx: LocalIdx { x: v0 } }, cat(vec![vec![32], u(v0 as u128)])) }
        15 => { let v0 = num(r); (WasmInstruction::LocalSet { local_idx: LocalIdx { x: v0 } }, cat(vec![vec![33], u(v0 as u128)])) }
        16 => { let v0 = num(r); (WasmInstruction::LocalTee { local_idx: LocalIdx { x: v0 } }, cat(vec![vec![34], u(v0 as u128)])) }
        17 => { let v0 = num(r); (WasmInstruction::GlobalGet { global_idx: GlobalIdx { x: v0 } }, cat(vec![vec![35], u(v0 as u128)])) }
        18 => { let v0 = num(r); (WasmInstruction::GlobalSet { global_idx: GlobalIdx { x: v0 } }, cat(vec![vec![36], u(v0 as u128)])) }
        19 => { let v0 = num(r); (WasmInstruction::TableGet { table_idx: TableIdx { x: v0 } }, cat(vec![vec![37], u(v0 as u128)])) }
        20 => { let v0 = num(r); (WasmInstruction::TableSet { table_idx: TableIdx { x: v0 } }, cat(vec![vec![38], u(v0 as u128)])) }
        21 => { let v0 = num(r); let v1 = num(r); (WasmInstruction::TableInit { elem_idx: ElemIdx { x: v0 }, table_idx: TableIdx { x: v1 } }, cat(vec![vec![252, 12], u(v0 as u128), u(v1 as u128)])) }
        22 => { let v0 = num(r); (WasmInstruction::ElemDrop { elem_idx: ElemIdx { x: v0 } }, cat(vec![vec![252, 13], u(v0 as u128)])) }
        23 => { let v0 = num(r); let v1 = num(r); (WasmInstruction::TableCopy { table_idx1: TableIdx { x: v0 }, table_idx2: TableIdx { x: v1 } }, cat(vec![vec![252, 14], u(v0 as u128), u(v1 as u128)])) }
        24 => { let v0 = num(r); (WasmInstruction::TableGrow { table_idx: TableIdx { x: v0 } }, cat(vec![vec![252, 15], u(v0 as u128)])) }
        25 => { let v0 = num(r); (WasmInstruction::TableSize { table_idx: TableIdx { x: v0 } }, cat(vec![vec![252, 16], u(v0 as u128)])) }
        26 => { let v0 = num(r); (WasmInstruction::TableFill { table_idx: TableIdx { x: v0 } }, cat(vec![vec![252, 17], u(v0 as u128)])) }
        27 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I32Load { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![40], u(v0 as u128), u(w0 as u128)])) }
        28 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I64Load { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![41], u(v0 as u128), u(w0 as u128)])) }
        29 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::F32Load { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![42], u(v0 as u128), u(w0 as u128)])) }
        30 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::F64Load { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![43], u(v0 as u128), u(w0 as u128)])) }
        31 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I32Load8S { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![44], u(v0 as u128), u(w0 as u128)])) }
        32 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I32Load8U { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![45], u(v0 as u128), u(w0 as u128)])) }
        33 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I32Load16S { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![46], u(v0 as u128), u(w0 as u128)])) }
        34 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I32Load16U { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![47], u(v0 as u128), u(w0 as u128)])) }
        35 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I64Load8S { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![48], u(v0 as u128), u(w0 as u128)])) }
        36 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I64Load8U { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![49], u(v0 as u128), u(w0 as u128)])) }
        37 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I64Load16S { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![50], u(v0 as u128), u(w0 as u128)])) }
        38 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I64Load16U { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![51], u(v0 as u128), u(w0 as u128)])) }
        39 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I64Load32S { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![52], u(v0 as u128), u(w0 as u128)])) }
        40 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I64Load32U { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![53], u(v0 as u128), u(w0 as u128)])) }
        41 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I32Store { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![54], u(v0 as u128), u(w0 as u128)])) }
        42 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I64Store { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![55], u(v0 as u128), u(w0 as u128)])) }
        43 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::F32Store { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![56], u(v0 as u128), u(w0 as u128)])) }
        44 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::F64Store { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![57], u(v0 as u128), u(w0 as u128)])) }
        45 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I32Store8 { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![58], u(v0 as u128), u(w0 as u128)])) }
        46 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I32Store16 { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![59], u(v0 as u128), u(w0 as u128)])) }
        47 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I64Store8 { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![60], u(v0 as u128), u(w0 as u128)])) }
        48 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I64Store16 { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![61], u(v0 as u128), u(w0 as u128)])) }
        49 => { let (v0, w0) = (num(r), num(r)); (WasmInstruction::I64Store32 { mem_arg: MemArg { align: v0, offset: w0 } }, cat(vec![vec![62], u(v0 as u128), u(w0 as u128)])) }
        50 => {  (WasmInstruction::MemorySize, cat(vec![vec![63], vec![0]])) }
        51 => {  (WasmInstruction::MemoryGrow, cat(vec![vec![64], vec![0]])) }
        52 => { let v0 = num(r); (WasmInstruction::MemoryInit { data_idx: DataIdx { x: v0 } }, cat(vec![vec![252, 8], u(v0 as u128), vec![0]])) }
        53 => { let v0 = num(r); (WasmInstruction::DataDrop { data_idx: DataIdx { x: v0 } }, cat(vec![vec![252, 9], u(v0 as u128)])) }
        54 => {  (WasmInstruction::MemoryCopy, cat(vec![vec![252, 10], vec![0], vec![0]])) }
        55 => {  (WasmInstruction::MemoryFill, cat(vec![vec![252, 11], vec![0]])) }
        56 => { let v0 = ((r.u64() as i64) >> r.below(64)) as i32; (WasmInstruction::I32Const { n: v0 }, cat(vec![vec![65], s(v0 as i128)])) }
        57 => { let v0 = ((r.u64() as i64) >> r.below(64)) as i64; (WasmInstruction::I64Const { n: v0 }, cat(vec![vec![66], s(v0 as i128)])) }
        58 => { let v0 = f32::from_bits(r.u64() as u32 & !(1 << 20)); (WasmInstruction::F32Const { z: v0 }, cat(vec![vec![67], (0..4).map(|i| (v0.to_bits() >> (8 * i)) as u8).collect()])) }
        59 => { let v0 = f64::from_bits(r.u64() as u64 & !(1 << 50)); (WasmInstruction::F64Const { z: v0 }, cat(vec![vec![68], (0..8).map(|i| (v0.to_bits() >> (8 * i)) as u8).collect()])) }
        60 => {  (WasmInstruction::I32Eqz, cat(vec![vec![69]])) }
        61 => {  (WasmInstruction::I32Eq, cat(vec![vec![70]])) }
        62 => {  (WasmInstruction::I32Ne, cat(vec![vec![71]])) }
        63 => {  (WasmInstruction::I32LtS, cat(vec![vec![72]])) }
        64 => {  (WasmInstruction::I32LtU, cat(vec![vec![73]])) }
        65 => {  (WasmInstruction::I32GtS, cat(vec![vec![74]])) }
        66 => {  (WasmInstruction::I32GtU, cat(vec![vec![75]])) }
        67 => {  (WasmInstruction::I32LeS, cat(vec![vec![76]])) }
        68 => {  (WasmInstruction::I32LeU, cat(vec![vec![77]])) }
        69 => {  (WasmInstruction::I32GeS, cat(vec![vec![78]])) }
        70 => {  (WasmInstruction::I32GeU, cat(vec![vec![79]])) }
        71 => {  (WasmInstruction::I64Eqz, cat(vec![vec![80]])) }
        72 => {  (WasmInstruction::I64Eq, cat(vec![vec![81]])) }
        73 => {  (WasmInstruction::I64Ne, cat(vec![vec![82]])) }
        74 => {  (WasmInstruction::I64LtS, cat(vec![vec![83]])) }
        75 => {  (WasmInstruction::I64LtU, cat(vec![vec![84]])) }
        76 => {  (WasmInstruction::I64GtS, cat(vec![vec![85]])) }
        77 => {  (WasmInstruction::I64GtU, cat(vec![vec![86]])) }
        78 => {  (WasmInstruction::I64LeS, cat(vec![vec![87]])) }
        79 => {  (WasmInstruction::I64LeU, cat(vec![vec![88]])) }
        80 => {  (WasmInstruction::I64GeS, cat(vec![vec![89]])) }
        81 => {  (WasmInstruction::I64GeU, cat(vec![vec![90]])) }
        82 => {  (WasmInstruction::F32Eq, cat(vec![vec![91]])) }
        83 => {  (WasmInstruction::F32Ne, cat(vec![vec![92]])) }
        84 => {  (WasmInstruction::F32Lt, cat(vec![vec![93]])) }
        85 => {  (WasmInstruction::F32Gt, cat(vec![vec![94]])) }
        86 => {  (WasmInstruction::F32Le, cat(vec![vec![95]])) }
        87 => {  (WasmInstruction::F32Ge, cat(vec![vec![96]])) }
        88 => {  (WasmInstruction::F64Eq, cat(vec![vec![97]])) }
        89 => {  (WasmInstruction::F64Ne, cat(vec![vec![98]])) }
        90 => {  (WasmInstruction::F64Lt, cat(vec![vec![99]])) }
        91 => {  (WasmInstruction::F64Gt, cat(vec![vec![100]])) }
        92 => {  (WasmInstruction::F64Le, cat(vec![vec![101]])) }
        93 => {  (WasmInstruction::F64Ge, cat(vec![vec![102]])) }
        94 => {  (WasmInstruction::I32Clz, cat(vec![vec![103]])) }
        95 => {  (WasmInstruction::I32Ctz, cat(vec![vec![104]])) }
        96 => {  (WasmInstruction::I32PopCnt, cat(vec![vec![105]])) }
        97 => {  (WasmInstruction::I32Add, cat(vec![vec![106]])) }
        98 => {  (WasmInstruction::I32Sub, cat(vec![vec![107]])) }
        99 => {  (WasmInstruction::I32Mul, cat(vec![vec![108]])) }
        100 => {  (WasmInstruction::I32DivS, cat(vec![vec![109]])) }
        101 => {  (WasmInstruction::I32DivU, cat(vec![vec![110]])) }
        102 => {  (WasmInstruction::I32RemS, cat(vec![vec![111]])) }
        103 => {  (WasmInstruction::I32RemU, cat(vec![vec![112]])) }
        104 => {  (WasmInstruction::I32And, cat(vec![vec![113]])) }
        105 => {  (WasmInstruction::I32Or, cat(vec![vec![114]])) }
        106 => {  (WasmInstruction::I32Xor, cat(vec![vec![115]])) }
        107 => {  (WasmInstruction::I32Shl, cat(vec![vec![116]])) }
        108 => {  (WasmInstruction::I32ShrS, cat(vec![vec![117]])) }
        109 => {  (WasmInstruction::I32ShrU, cat(vec![vec![118]])) }
        110 => {  (WasmInstruction::I32RotL, cat(vec![vec![119]])) }
        111 => {  (WasmInstruction::I32RotR, cat(vec![vec![120]])) }
        112 => {  (WasmInstruction::I64Clz, cat(vec![vec![121]])) }
        113 => {  (WasmInstruction::I64Ctz, cat(vec![vec![122]])) }
        114 => {  (WasmInstruction::I64PopCnt, cat(vec![vec![123]])) }
        115 => {  (WasmInstruction::I64Add, cat(vec![vec![124]])) }
        116 => {  (WasmInstruction::I64Sub, cat(vec![vec![125]])) }
        117 => {  (WasmInstruction::I64Mul, cat(vec![vec![126]])) }
        118 => {  (WasmInstruction::I64DivS, cat(vec![vec![127]])) }
        119 => {  (WasmInstruction::I64DivU, cat(vec![vec![128]])) }
        120 => {  (WasmInstruction::I64RemS, cat(vec![vec![129]])) }
        121 => {  (WasmInstruction::I64RemU, cat(vec![vec![130]])) }
        122 => {  (WasmInstruction::I64And, cat(vec![vec![131]])) }
        123 => {  (WasmInstruction::I64Or, cat(vec![vec![132]])) }
        124 => {  (WasmInstruction::I64Xor, cat(vec![vec![133]])) }
        125 => {  (WasmInstruction::I64Shl, cat(vec![vec![134]])) }
        126 => {  (WasmInstruction::I64ShrS, cat(vec![vec![135]])) }
        127 => {  (WasmInstruction::I64ShrU, cat(vec![vec![136]])) }
        128 => {  (WasmInstruction::I64RotL, cat(vec![vec![137]])) }
        129 => {  (WasmInstruction::I64RotR, cat(vec![vec![138]])) }
        130 => {  (WasmInstruction::F32Abs, cat(vec![vec![139]])) }
        131 => {  (WasmInstruction::F32Neg, cat(vec![vec![140]])) }
        132 => {  (WasmInstruction::F32Ceil, cat(vec![vec![141]])) }
        133 => {  (WasmInstruction::F32Floor, cat(vec![vec![142]])) }
        134 => {  (WasmInstruction::F32Trunc, cat(vec![vec![143]])) }
        135 => {  (WasmInstruction::F32Nearest, cat(vec![vec![144]])) }
        136 => {  (WasmInstruction::F32Sqrt, cat(vec![vec![145]])) }
        137 => {  (WasmInstruction::F32Add, cat(vec![vec![146]])) }
        138 => {  (WasmInstruction::F32Sub, cat(vec![vec![147]])) }
        139 => {  (WasmInstruction::F32Mul, cat(vec![vec![148]])) }
        140 => {  (WasmInstruction::F32Div, cat(vec![vec![149]])) }
        141 => {  (WasmInstruction::F32Min, cat(vec![vec![150]])) }
        142 => {  (WasmInstruction::F32Max, cat(vec![vec![151]])) }
        143 => {  (WasmInstruction::F32CopySign, cat(vec![vec![152]])) }
        144 => {  (WasmInstruction::F64Abs, cat(vec![vec![153]])) }
        145 => {  (WasmInstruction::F64Neg, cat(vec![vec![154]])) }
        146 => {  (WasmInstruction::F64Ceil, cat(vec![vec![155]])) }
        147 => {  (WasmInstruction::F64Floor, cat(vec![vec![156]])) }
        148 => {  (WasmInstruction::F64Trunc, cat(vec![vec![157]])) }
        149 => {  (WasmInstruction::F64Nearest, cat(vec![vec![158]])) }
        150 => {  (WasmInstruction::F64Sqrt, cat(vec![vec![159]])) }
        151 => {  (WasmInstruction::F64Add, cat(vec![vec![160]])) }
        152 => {  (WasmInstruction::F64Sub, cat(vec![vec![161]])) }
        153 => {  (WasmInstruction::F64Mul, cat(vec![vec![162]])) }
        154 => {  (WasmInstruction::F64Div, cat(vec![vec![163]])) }
        155 => {  (WasmInstruction::F64Min, cat(vec![vec![164]])) }
        156 => {  (WasmInstruction::F64Max, cat(vec![vec![165]])) }
        157 => {  (WasmInstruction::F64CopySign, cat(vec![vec![166]])) }
        158 => {  (WasmInstruction::I32WrapI64, cat(vec![vec![167]])) }
        159 => {  (WasmInstruction::I32TruncF32S, cat(vec![vec![168]])) }
        160 => {  (WasmInstruction::I32TruncF32U, cat(vec![vec![169]])) }
        161 => {  (WasmInstruction::I32TruncF64S, cat(vec![vec![170]])) }
        162 => {  (WasmInstruction::I32TruncF64U, cat(vec![vec![171]])) }
        163 => {  (WasmInstruction::I64ExtendI32S, cat(vec![vec![172]])) }
        164 => {  (WasmInstruction::I64ExtendI32U, cat(vec![vec![173]])) }
        165 => {  (WasmInstruction::I64TruncF32S, cat(vec![vec![174]])) }
        166 => {  (WasmInstruction::I64TruncF32U, cat(vec![vec![175]])) }
        167 => {  (WasmInstruction::I64TruncF64S, cat(vec![vec![176]])) }
        168 => {  (WasmInstruction::I64TruncF64U, cat(vec![vec![177]])) }
        169 => {  (WasmInstruction::F32ConvertI32S, cat(vec![vec![178]])) }
        170 => {  (WasmInstruction::F32ConvertI32U, cat(vec![vec![179]])) }
        171 => {  (WasmInstruction::F32ConvertI64S, cat(vec![vec![180]])) }
        172 => {  (WasmInstruction::F32ConvertI64U, cat(vec![vec![181]])) }
        173 => {  (WasmInstruction::F32DemoteF64, cat(vec![vec![182]])) }
        174 => {  (WasmInstruction::F64ConvertI32S, cat(vec![vec![183]])) }
        175 => {  (WasmInstruction::F64ConvertI32U, cat(vec![vec![184]])) }
        176 => {  (WasmInstruction::F64ConvertI64S, cat(vec![vec![185]])) }
        177 => {  (WasmInstruction::F64ConvertI64U, cat(vec![vec![186]])) }
        178 => {  (WasmInstruction::F64PromoteF32, cat(vec![vec![187]])) }
        179 => {  (WasmInstruction::I32ReinterpretF32, cat(vec![vec![188]])) }
        180 => {  (WasmInstruction::I64ReinterpretF64, cat(vec![vec![189]])) }
        181 => {  (WasmInstruction::F32ReinterpretI32, cat(vec![vec![190]])) }
        182 => {  (WasmInstruction::F64ReinterpretI64, cat(vec![vec![191]])) }
        183 => {  (WasmInstruction::I32Extend8S, cat(vec![vec![192]])) }
        184 => {  (WasmInstruction::I32Extend16S, cat(vec![vec![193]])) }
        185 => {  (WasmInstruction::I64Extend8S, cat(vec![vec![194]])) }
        186 => {  (WasmInstruction::I64Extend16S, cat(vec![vec![195]])) }
        187 => {  (WasmInstruction::I64Extend32S, cat(vec![vec![196]])) }
        188 => {  (WasmInstruction::I32TruncSatF32S, cat(vec![vec![252, 0]])) }
        189 => {  (WasmInstruction::I32TruncSatF32U, cat(vec![vec![252, 1]])) }
        190 => {  (WasmInstruction::I32TruncSatF64S, cat(vec![vec![252, 2]])) }
        191 => {  (WasmInstruction::I32TruncSatF64U, cat(vec![vec![252, 3]])) }
        192 => {  (WasmInstruction::I64TruncSatF32S, cat(vec![vec![252, 4]])) }
        193 => {  (WasmInstruction::I64TruncSatF32U, cat(vec![vec![252, 5]])) }
        194 => {  (WasmInstruction::I64TruncSatF64S, cat(vec![vec![252, 6]])) }
        195 => {  (WasmInstruction::I64TruncSatF64U, cat(vec![vec![252, 7]])) }
        _ => unreachable!(),
    }
}
