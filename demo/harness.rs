// Host harness: runs the program's process_instruction against in-memory accounts,
// with a token program, system program and clock good enough for the market.
use phoenix::program::*;
use phoenix::program::deposit::DepositParams;
use phoenix::program::new_order::*;
use phoenix::program::withdraw::WithdrawParams;
use phoenix::program::instruction_builders::*;
use phoenix::program::status::*;
use phoenix::quantities::*;
use phoenix::state::markets::*;
use phoenix::state::*;
use solana_program::account_info::AccountInfo;
use solana_program::clock::Clock;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Mutex;

pub struct Chain {
    pub slot: u64,
    pub time: i64,
    pub logs: Vec<Vec<u8>>,
    pub ret: Vec<u8>,
    pub fail_cpi: Option<u64>,
    pub cpis: u64,
}
pub static CHAIN: Mutex<Chain> = Mutex::new(Chain { slot: 10, time: 1000, logs: vec![], ret: vec![], fail_cpi: None, cpis: 0 });

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        if std::env::var("DEMO_VERBOSE").is_ok() {
            eprintln!("log: {}", m);
        }
    }
    fn sol_log_compute_units(&self) {}
    fn sol_set_return_data(&self, d: &[u8]) {
        CHAIN.lock().unwrap().ret = d.to_vec();
    }
    fn sol_get_clock_sysvar(&self, a: *mut u8) -> u64 {
        let c = CHAIN.lock().unwrap();
        unsafe {
            *(a as *mut Clock) = Clock { slot: c.slot, epoch_start_timestamp: 0, epoch: 0, leader_schedule_epoch: 0, unix_timestamp: c.time };
        }
        0
    }
    fn sol_get_rent_sysvar(&self, a: *mut u8) -> u64 {
        unsafe {
            *(a as *mut Rent) = Rent::default();
        }
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        {
            let mut c = CHAIN.lock().unwrap();
            c.cpis += 1;
            c.ret.clear();
            if c.fail_cpi == Some(c.cpis) {
                return Err(ProgramError::Custom(0xdead));
            }
        }
        let pdas: Vec<Pubkey> = seeds.iter().filter_map(|s| Pubkey::create_program_address(s, &phoenix::id()).ok()).collect();
        let mut v: Vec<AccountInfo> = vec![];
        for m in ix.accounts.iter() {
            let i = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
            let mut i = i.clone();
            if m.is_signer && !(i.is_signer || pdas.contains(&m.pubkey)) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !i.is_writable {
                return Err(ProgramError::InvalidArgument);
            }
            i.is_signer = m.is_signer;
            i.is_writable = m.is_writable;
            v.push(i);
        }
        if ix.program_id == spl_token::id() {
            return spl_token::processor::Processor::process(&spl_token::id(), &v, &ix.data);
        }
        if ix.program_id == phoenix::id() {
            phoenix::process_instruction(&phoenix::id(), &v, &ix.data)?;
            CHAIN.lock().unwrap().logs.push(ix.data.clone());
            return Ok(());
        }
        if ix.program_id == solana_program::system_program::id() {
            let le = |o: usize| u64::from_le_bytes(ix.data[o..o + 8].try_into().unwrap());
            let pk = |o: usize| Pubkey::new(&ix.data[o..o + 32]);
            match ix.data[0] {
                0 => {
                    if v[1].lamports() != 0 || !v[1].data_is_empty() || *v[1].owner != Pubkey::default() {
                        return Err(ProgramError::AccountAlreadyInitialized);
                    }
                    take(&v[0], &v[1], le(4))?;
                    alloc(&v[1], le(12));
                    v[1].assign(&pk(20));
                }
                1 => v[0].assign(&pk(4)),
                2 => take(&v[0], &v[1], le(4))?,
                8 => alloc(&v[0], le(4)),
                _ => return Err(ProgramError::InvalidInstructionData),
            }
            return Ok(());
        }
        Err(ProgramError::IncorrectProgramId)
    }
}
fn take(a: &AccountInfo, b: &AccountInfo, n: u64) -> ProgramResult {
    let x = a.lamports();
    if x < n {
        return Err(ProgramError::InsufficientFunds);
    }
    **a.lamports.borrow_mut() = x - n;
    **b.lamports.borrow_mut() += n;
    Ok(())
}
fn alloc(a: &AccountInfo, n: u64) {
    let words = vec![0u64; n as usize / 8 + 1];
    let s: &'static mut [u64] = Box::leak(words.into_boxed_slice());
    let b: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(s.as_mut_ptr() as *mut u8, n as usize) };
    unsafe {
        let cell: &RefCell<&'static mut [u8]> = std::mem::transmute(&*a.data);
        *cell.borrow_mut() = b;
    }
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Vec<u8>,
    pub executable: bool,
}

pub struct World {
    pub accts: BTreeMap<Pubkey, Acct>,
    pub market: Pubkey,
    pub base: Pubkey,
    pub quote: Pubkey,
    pub auth: Pubkey,
    pub params: MarketSizeParams,
}

pub fn key(n: u64) -> Pubkey {
    let mut b = [7u8; 32];
    b[..8].copy_from_slice(&n.to_le_bytes());
    b[31] = 1;
    Pubkey::new_from_array(b)
}
pub fn ata(t: &Pubkey, m: &Pubkey) -> Pubkey {
    // the associated token address, computed as the associated-token program does
    Pubkey::find_program_address(
        &[t.as_ref(), spl_token::id().as_ref(), m.as_ref()],
        &"ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL".parse().unwrap(),
    )
    .0
}
pub fn mint_acct(decimals: u8) -> Acct {
    let mut d = vec![0; spl_token::state::Mint::LEN];
    spl_token::state::Mint { mint_authority: None.into(), supply: 1 << 60, decimals, is_initialized: true, freeze_authority: None.into() }.pack_into_slice(&mut d);
    Acct { lamports: 1_000_000_000, owner: spl_token::id(), data: d, executable: false }
}
pub fn token_acct(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Acct {
    let mut d = vec![0; spl_token::state::Account::LEN];
    spl_token::state::Account {
        mint: *mint,
        owner: *owner,
        amount,
        delegate: None.into(),
        state: spl_token::state::AccountState::Initialized,
        is_native: None.into(),
        delegated_amount: 0,
        close_authority: None.into(),
    }
    .pack_into_slice(&mut d);
    Acct { lamports: 1_000_000_000, owner: spl_token::id(), data: d, executable: false }
}

#[derive(Debug, PartialEq)]
pub enum Fail {
    Err(ProgramError),
    Panic,
    ReadonlyChanged(Pubkey),
    Lamports,
}

impl World {
    /// an empty chain with two mints, nothing else
    pub fn bare() -> World {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| {
            solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
            std::panic::set_hook(Box::new(|_| {}));
        });
        {
            let mut c = CHAIN.lock().unwrap();
            c.slot = 10;
            c.time = 1000;
            c.logs.clear();
            c.ret.clear();
            c.fail_cpi = None;
        }
        let mut w = World { accts: BTreeMap::new(), market: key(1), base: key(2), quote: key(3), auth: key(4), params: MarketSizeParams { bids_size: 512, asks_size: 512, num_seats: 128 } };
        w.accts.insert(w.base, mint_acct(9));
        w.accts.insert(w.quote, mint_acct(6));
        w.accts.insert(w.auth, Acct { lamports: 1 << 50, ..Default::default() });
        w.accts.insert(phoenix::id(), Acct { lamports: 1, executable: true, ..Default::default() });
        w.accts.insert(spl_token::id(), Acct { lamports: 1, executable: true, ..Default::default() });
        w.accts.insert(solana_program::system_program::id(), Acct { lamports: 1, executable: true, ..Default::default() });
        let space = std::mem::size_of::<MarketHeader>() + get_market_size(&w.params).unwrap();
        w.accts.insert(w.market, Acct { lamports: Rent::default().minimum_balance(space), owner: phoenix::id(), data: vec![0; space], executable: false });
        w
    }
    pub fn init_ix(&self, fee_bps: u16) -> Instruction {
        create_initialize_market_instruction(&self.market, &self.base, &self.quote, &self.auth, self.params, 100_000, 1_000, 1_000, fee_bps, &self.auth, None)
    }
    /// an initialised, active market: base 9 decimals, quote 6; 1000 base lots per unit, tick 1000 quote lots per unit.
    /// one base lot = 1_000_000 base atoms; one quote lot = 10 quote atoms; price of 1 tick: 1 quote lot per base lot
    pub fn market(fee_bps: u16) -> World {
        let mut w = World::bare();
        let ix = w.init_ix(fee_bps);
        w.exec(&ix).expect("initialise market");
        w.status(MarketStatus::Active).expect("activate market");
        let (a, q) = (w.auth, w.quote);
        w.accts.insert(ata(&a, &q), token_acct(&q, &a, 0));
        w
    }
    pub fn status(&mut self, s: MarketStatus) -> Result<(), Fail> {
        let ix = create_change_market_status_instruction(&self.auth, &self.market, s);
        self.exec(&ix)
    }
    /// a funded wallet
    pub fn wallet(&mut self, n: u64, base: u64, quote: u64) -> Pubkey {
        let k = key(n);
        self.accts.insert(k, Acct { lamports: 1 << 40, ..Default::default() });
        self.accts.insert(ata(&k, &self.base), token_acct(&self.base, &k, base));
        self.accts.insert(ata(&k, &self.quote), token_acct(&self.quote, &k, quote));
        k
    }
    /// a funded wallet with an approved seat
    pub fn trader(&mut self, n: u64, base: u64, quote: u64) -> Pubkey {
        let k = self.wallet(n, base, quote);
        self.exec(&create_request_seat_instruction(&k, &self.market)).expect("request seat");
        self.seat(&k, SeatApprovalStatus::Approved).expect("approve seat");
        k
    }
    pub fn seat(&mut self, t: &Pubkey, s: SeatApprovalStatus) -> Result<(), Fail> {
        let ix = create_change_seat_status_instruction(&self.auth, &self.market, t, s);
        self.exec(&ix)
    }
    pub fn order(&mut self, t: &Pubkey, o: OrderPacket) -> Result<(), Fail> {
        let ix = create_new_order_instruction(&self.market, t, &self.base, &self.quote, &o);
        self.exec(&ix)
    }
    pub fn order_ff(&mut self, t: &Pubkey, o: OrderPacket) -> Result<(), Fail> {
        let ix = create_new_order_with_free_funds_instruction(&self.market, t, &o);
        self.exec(&ix)
    }
    pub fn deposit(&mut self, t: &Pubkey, base_lots: u64, quote_lots: u64) -> Result<(), Fail> {
        let ix = create_deposit_funds_instruction(&self.market, t, &self.base, &self.quote, &DepositParams { quote_lots_to_deposit: quote_lots, base_lots_to_deposit: base_lots });
        self.exec(&ix)
    }
    pub fn exec(&mut self, ix: &Instruction) -> Result<(), Fail> {
        self.exec_with(ix, &[])
    }
    /// run with extra signer flags removed from the instruction's metas
    pub fn exec_with(&mut self, ix: &Instruction, unsigned: &[Pubkey]) -> Result<(), Fail> {
        {
            let mut c = CHAIN.lock().unwrap();
            c.cpis = 0;
            c.ret.clear();
        }
        let nlogs = CHAIN.lock().unwrap().logs.len();
        let mut keys: Vec<Pubkey> = vec![];
        for m in &ix.accounts {
            if !keys.contains(&m.pubkey) {
                keys.push(m.pubkey);
            }
        }
        // memory laid out as the loader lays it out: original length, key, owner, lamports, length, data
        let mut bufs: Vec<Vec<u64>> = keys
            .iter()
            .map(|k| {
                let a = self.accts.get(k).cloned().unwrap_or_default();
                let mut v = vec![0u64; (88 + a.data.len() + 10240) / 8 + 2];
                let b = unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, v.len() * 8) };
                b[4..8].copy_from_slice(&(a.data.len() as u32).to_le_bytes());
                b[8..40].copy_from_slice(k.as_ref());
                b[40..72].copy_from_slice(a.owner.as_ref());
                b[72..80].copy_from_slice(&a.lamports.to_le_bytes());
                b[80..88].copy_from_slice(&(a.data.len() as u64).to_le_bytes());
                b[88..88 + a.data.len()].copy_from_slice(&a.data);
                v
            })
            .collect();
        let mut infos: Vec<AccountInfo> = vec![];
        for (i, k) in keys.iter().enumerate() {
            let p = bufs[i].as_mut_ptr() as *mut u8;
            let n = self.accts.get(k).map(|a| a.data.len()).unwrap_or(0);
            let (key, owner, lam, data): (&'static Pubkey, &'static Pubkey, &'static mut u64, &'static mut [u8]) =
                unsafe { (&*(p.add(8) as *const Pubkey), &*(p.add(40) as *const Pubkey), &mut *(p.add(72) as *mut u64), std::slice::from_raw_parts_mut(p.add(88), n)) };
            infos.push(AccountInfo {
                key,
                is_signer: ix.accounts.iter().any(|m| m.pubkey == *k && m.is_signer) && !unsigned.contains(k),
                is_writable: ix.accounts.iter().any(|m| m.pubkey == *k && m.is_writable),
                lamports: Rc::new(RefCell::new(lam)),
                data: Rc::new(RefCell::new(data)),
                owner,
                executable: self.accts.get(k).map(|a| a.executable).unwrap_or(false),
                rent_epoch: 0,
            });
        }
        let view: Vec<AccountInfo> = ix.accounts.iter().map(|m| infos[keys.iter().position(|k| *k == m.pubkey).unwrap()].clone()).collect();
        let view: &'static [AccountInfo<'static>] = Box::leak(view.into_boxed_slice());
        let data = ix.data.clone();
        let r = catch_unwind(AssertUnwindSafe(|| phoenix::process_instruction(&phoenix::id(), view, &data)));
        let r = match r {
            Err(_) => Err(Fail::Panic),
            Ok(Err(e)) => Err(Fail::Err(e)),
            Ok(Ok(())) => Ok(()),
        };
        if let Err(e) = r {
            CHAIN.lock().unwrap().logs.truncate(nlogs);
            if std::env::var("DEMO_VERBOSE").is_ok() {
                eprintln!("failed: {:?}", e);
            }
            std::mem::forget(bufs);
            return Err(e);
        }
        let mut out = vec![];
        let (mut l0, mut l1) = (0u128, 0u128);
        for (i, k) in keys.iter().enumerate() {
            let owner = unsafe { *(bufs[i].as_ptr() as *const u8).add(40).cast::<Pubkey>() };
            let a = Acct { lamports: infos[i].lamports(), owner, data: infos[i].data.borrow().to_vec(), executable: infos[i].executable };
            let old = self.accts.get(k).cloned().unwrap_or_default();
            l0 += old.lamports as u128;
            l1 += a.lamports as u128;
            if !infos[i].is_writable && a != old {
                std::mem::forget(bufs);
                return Err(Fail::ReadonlyChanged(*k));
            }
            out.push((*k, a));
        }
        std::mem::forget(bufs);
        if l0 != l1 {
            return Err(Fail::Lamports);
        }
        for (k, a) in out {
            self.accts.insert(k, a);
        }
        Ok(())
    }
    pub fn tokens(&self, k: &Pubkey) -> u64 {
        spl_token::state::Account::unpack(&self.accts[k].data).unwrap().amount
    }
    pub fn base_of(&self, t: &Pubkey) -> u64 {
        self.tokens(&ata(t, &self.base))
    }
    pub fn quote_of(&self, t: &Pubkey) -> u64 {
        self.tokens(&ata(t, &self.quote))
    }
    pub fn vault(&self, m: &Pubkey) -> Pubkey {
        Pubkey::find_program_address(&[b"vault", self.market.as_ref(), m.as_ref()], &phoenix::id()).0
    }
    pub fn base_vault(&self) -> u64 {
        self.tokens(&self.vault(&self.base))
    }
    pub fn quote_vault(&self) -> u64 {
        self.tokens(&self.vault(&self.quote))
    }
    pub fn seat_key(&self, t: &Pubkey) -> Pubkey {
        Pubkey::find_program_address(&[b"seat", self.market.as_ref(), t.as_ref()], &phoenix::id()).0
    }
    pub fn seat_status(&self, t: &Pubkey) -> u64 {
        let d = &self.accts[&self.seat_key(t)].data;
        // discriminant, market, trader, status
        u64::from_le_bytes(d[72..80].try_into().unwrap())
    }
    pub fn header(&self) -> MarketHeader {
        let d = &self.accts[&self.market].data;
        unsafe { std::ptr::read_unaligned(d.as_ptr() as *const MarketHeader) }
    }
    pub fn with<R>(&self, f: impl FnOnce(&dyn Market<Pubkey, FIFOOrderId, FIFORestingOrder, OrderPacket>) -> R) -> R {
        let d = &self.accts[&self.market].data;
        let h = self.header();
        let n = std::mem::size_of::<MarketHeader>();
        let mut v = vec![0u64; (d.len() - n) / 8 + 1];
        let b = unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, d.len() - n) };
        b.copy_from_slice(&d[n..]);
        let m = load_with_dispatch(&h.market_size_params, b).expect("load market");
        f(m.inner)
    }
    pub fn state(&self, t: &Pubkey) -> TraderState {
        self.with(|m| m.get_trader_state(t).cloned()).expect("trader registered")
    }
    pub fn book(&self, s: Side) -> Vec<(FIFOOrderId, FIFORestingOrder)> {
        self.with(|m| m.get_book(s).iter().map(|(a, b)| (*a, *b)).collect())
    }
    /// (base lots locked + free, quote lots locked + free) over all traders
    pub fn trader_totals(&self) -> (u64, u64) {
        self.with(|m| {
            let mut b = 0;
            let mut q = 0;
            for (_, t) in m.get_registered_traders().iter() {
                b += t.base_lots_locked.as_u64() + t.base_lots_free.as_u64();
                q += t.quote_lots_locked.as_u64() + t.quote_lots_free.as_u64();
            }
            (b, q)
        })
    }
    pub fn fees(&self) -> (u64, u64) {
        self.with(|m| (m.get_uncollected_fee_amount().as_u64(), m.get_collected_fee_amount().as_u64()))
    }
    /// vault balances cover exactly what the market owes (lots of 1_000_000 base atoms and 10 quote atoms)
    pub fn solvent(&self) -> bool {
        let (b, q) = self.trader_totals();
        let h = self.header();
        let (bl, ql) = (h.get_base_lot_size().as_u64(), h.get_quote_lot_size().as_u64());
        let r = self.base_vault() == b * bl && self.quote_vault() == (q + self.fees().0) * ql;
        if !r {
            eprintln!("vaults: base {} owed {}; quote {} owed {}", self.base_vault(), b * bl, self.quote_vault(), (q + self.fees().0) * ql);
        }
        r
    }
}
pub fn last_log() -> Vec<u8> {
    CHAIN.lock().unwrap().logs.last().cloned().unwrap_or_default()
}
pub fn logs() -> Vec<Vec<u8>> {
    CHAIN.lock().unwrap().logs.clone()
}
pub fn clear_logs() {
    CHAIN.lock().unwrap().logs.clear();
}
pub fn clock(slot: u64, time: i64) {
    let mut c = CHAIN.lock().unwrap();
    c.slot = slot;
    c.time = time;
}
pub fn limit(side: Side, px: u64, n: u64, ff: bool) -> OrderPacket {
    OrderPacket::new_limit_order(side, px, n, SelfTradeBehavior::CancelProvide, None, 0, ff)
}
pub fn post(side: Side, px: u64, n: u64, ff: bool) -> OrderPacket {
    OrderPacket::new_post_only(side, px, n, 0, true, ff)
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {}", what);
        std::process::exit(1);
    }
}
