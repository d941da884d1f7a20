mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod common;
mod corpus;
mod dec;
mod dmg;
mod enc;
mod fix;
mod lay;
mod kit;
#[cfg(feature = "native")]
mod native;
mod smoke;
mod sym;

fn main() {
    let h = sym::harness();
    match h.as_str() {
        "c01_seq" => c01::c01_seq(),
        "c01_width" => c01::c01_width(),
        "c01_many" => c01::c01_many(),
        "c01_big" => c01::c01_big(),
        "c01_detect" => c01::c01_detect(),
        "c02_int" => c02::c02_int(),
        "c02_same" => c02::c02_same(),
        "c02_array" => c02::c02_array(),
        "c02_array2" => c02::c02_array2(),
        "c02_content" => c02::c02_content(),
        "c02_variant" => c02::c02_variant(),
        "c02_index" => c02::c02_index(),
        "c02_limit" => c02::c02_limit(),
        "c02_mix" => c02::c02_mix(),
        "c02_many" => c02::c02_many(),
        "c03_sort" => c03::c03_sort(),
        "c03_large" => c03::c03_large(),
        "c04_intact" => c04::c04_intact(),
        "c04_contents" => c04::c04_contents(),
        "c04_big" => c04::c04_big(),
        "c04_wrapped" => c04::c04_wrapped(),
        "c04_many" => c04::c04_many(),
        "c04_alter" => c04::c04_alter(),
        "c05_alter" => c05::c05_alter(),
        "c05_two" => c05::c05_two(),
        "c05_big" => c05::c05_big(),
        "c05_block" => c05::c05_block(),
        "c05_infos" => c05::c05_infos(),
        "c06_infos" => c06::c06_infos(),
        "c06_alter" => c06::c06_alter(),
        "c06_two" => c06::c06_two(),
        "c06_range" => c06::c06_range(),
        "c06_garbage" => c06::c06_garbage(),
        "c06_swap" => c06::c06_swap(),
        "c06_block" => c06::c06_block(),
        "c07_read" => c07::c07_read(),
        "c07_container" => c07::c07_container(),
        "c08_order" => c08::c08_order(),
        "c09_atomic" => c09::c09_atomic(),
        "c10_modes" => c10::c10_modes(),
        "c10_extra" => c10::c10_extra(),
        "c10_concat" => c10::c10_concat(),
        "c10_rejoin" => c10::c10_rejoin(),
        "c10_bigpack" => c10::c10_bigpack(),
        "c10_many" => c10::c10_many(),
        "c10_embed" => c10::c10_embed(),
        "c10_located" => c10::c10_located(),
        "c11_subset" => c11::c11_subset(),
        "c11_check" => c11::c11_check(),
        "c11_modes" => c11::c11_modes(),
        "c12_set" => c12::c12_set(),
        "c12_follow" => c12::c12_follow(),
        "c13_views" => c13::c13_views(),
        "c13_large" => c13::c13_large(),
        "c13_any" => c13::c13_any(),
        "c14_container" => c14::c14_container(),
        "c14_content" => c14::c14_content(),
        "c14_many" => c14::c14_many(),
        "c14_dir" => c14::c14_dir(),
        "c14_gen" => c14::c14_gen(),
        "c14_old" => c14::c14_old(),
        "c14_old_dir" => c14::c14_old_dir(),
        "c14_old_content" => c14::c14_old_content(),
        "c15_keys" => c15::c15_keys(),
        "c15_order" => c15::c15_order(),
        "c15_cross" => c15::c15_cross(),
        "c15_follow" => c15::c15_follow(),
        "c15_many" => c15::c15_many(),
        "c15_many_cross" => c15::c15_many_cross(),
        "c15_tree" => c15::c15_tree(),
        "c15_huge" => c15::c15_huge(),
        "c16_hints" => c16::c16_hints(),
        "c16_sizes" => c16::c16_sizes(),
        "c16_many" => c16::c16_many(),
        "c16_modes" => c16::c16_modes(),
        "c16_dedup" => c16::c16_dedup(),
        "c16_dedup_big" => c16::c16_dedup_big(),
        "c16_dedup_basic" => c16::c16_dedup_basic(),
        "smoke0" => smoke::smoke0(),
        "smoke1" => smoke::smoke1(),
        "smoke2" => smoke::smoke2(),
        _ => sym::fail("unknown harness"),
    }
}
