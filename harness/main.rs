mod common;
mod oracle;
mod rt;

fn main() {
    let table: &[(&str, extern "C" fn())] = &[
    ];
    rt::replay_main(table);
}
