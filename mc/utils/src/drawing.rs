use mc_kit::{Ctx, guard};
use utils::qrcode::{EMPTY_CHAR, FILLED_CHAR, QrCode, QrCodeError, qrcode_from_str};

pub fn run(ctx: &Ctx) {
    ctx.part("drawings", "texts of every length to 400 and beyond to above the limit, of digits, capitals, letters and multi-byte characters: the picture is the code of the text, in every drawing and with every border for the smallest codes and small ones for the others", |c| {
        let lens: Vec<usize> = (0..=ctx.pick(120, 400)).chain((420..2400).step_by(97)).chain(2320..2340).chain(3380..3400).chain([4000, 5590, 5596, 5597, 6000]).collect();
        c.par(lens.len(), |i| {
            let n = lens[i];
            for (kind, unit) in ["0123456789", "AB0C/ :", "abc{ }xyz", "héß✓"].into_iter().enumerate() {
                let text: String = unit.chars().cycle().take(n).collect();
                let want = qrcodegen::QrCode::encode_text(&text, qrcodegen::QrCodeEcc::Medium).ok();
                let key = || format!("{n} characters of kind {kind}");
                c.evals(1);
                let got = match guard(|| qrcode_from_str(&text)) {
                    Ok(g) => g,
                    Err(e) => {
                        c.fail(key(), e);
                        return;
                    }
                };
                let (want, got) = match (want, got) {
                    (Some(w), Ok(g)) => (w, g),
                    (None, g) => {
                        c.eq(key, &g.err(), &Some(QrCodeError::DataTooLong(text.len())));
                        c.outcome("too long");
                        c.nontrivial(1);
                        continue;
                    }
                    (Some(_), Err(e)) => {
                        c.fail(key(), format!("refused: {e}"));
                        return;
                    }
                };
                c.outcome("drawn");
                c.nontrivial(1);
                let side = want.size() as usize;
                let grid: Vec<Vec<bool>> = (0..side).map(|y| (0..side).map(|x| want.get_module(x as i32, y as i32)).collect()).collect();
                c.eq(|| format!("{} side", key()), &got.side_length(), &side);
                c.eq(|| format!("{} cells", key()), &got.as_vec(), &grid.concat());
                for (x, y) in [(side, 0), (0, side), (side, side), (usize::MAX, 0), (0, usize::MAX), (1 << 32, 0), (0, 1 << 32)] {
                    c.eq(|| format!("{} outside {x} {y}", key()), &(got.pixel(x, y), got.pixel_or_false(x, y)), &(None, false));
                }
                for border in if n <= 2 { 0..=255usize } else if n <= 40 { 0..=6 } else { 0..=1 } {
                    let key = || format!("{} border {border}", key());
                    let drawn = got.encode_to_console_string(border as u8, '.', '#', '\n');
                    c.eq(|| format!("{} console", key()), &console(&drawn, '.', '#'), &Some(framed(&grid, border)));
                    let default = got.encode_to_console_string_with_defaults(border as u8);
                    c.eq(|| format!("{} console defaults", key()), &console(&default, EMPTY_CHAR, FILLED_CHAR), &Some(framed(&grid, border)));
                    c.eq(|| format!("{} svg", key()), &svg(&got.encode_to_svg_string(border)), &Some(framed(&grid, border)));
                    c.evals(3);
                }
            }
        });
    });
}

fn framed(grid: &[Vec<bool>], border: usize) -> Vec<Vec<bool>> {
    let side = grid.len() + 2 * border;
    (0..side)
        .map(|y| (0..side).map(|x| x >= border && y >= border && grid.get(y - border).and_then(|r| r.get(x - border)).copied().unwrap_or(false)).collect())
        .collect()
}

/// Each cell is drawn two characters wide; an empty line ends the drawing.
fn console(s: &str, empty: char, filled: char) -> Option<Vec<Vec<bool>>> {
    let body = s.strip_suffix("\n\n")?;
    body.split('\n')
        .map(|l| {
            let l: Vec<char> = l.chars().collect();
            l.chunks(2)
                .map(|p| match p {
                    [a, b] if a == b && *a == filled => Some(true),
                    [a, b] if a == b && *a == empty => Some(false),
                    _ => None,
                })
                .collect()
        })
        .collect()
}

/// The picture an SVG of unit squares shows.
fn svg(s: &str) -> Option<Vec<Vec<bool>>> {
    let (_, view) = s.split_once("viewBox=\"0 0 ")?;
    let (w, view) = view.split_once(' ')?;
    let (h, _) = view.split_once('"')?;
    let (w, h): (usize, usize) = (w.parse().ok()?, h.parse().ok()?);
    let mut out = vec![vec![false; w]; h];
    let (_, d) = s.split_once(" d=\"")?;
    let (d, rest) = d.split_once('"')?;
    (rest.contains("fill=\"#000000\"") && s.contains("fill=\"#FFFFFF\"") && s.trim_end().ends_with("</svg>")).then_some(())?;
    for sq in d.split_whitespace() {
        let at = sq.strip_prefix('M')?.strip_suffix("h1v1h-1z")?;
        let (x, y) = at.split_once(',')?;
        let (x, y): (usize, usize) = (x.parse().ok()?, y.parse().ok()?);
        let cell = out.get_mut(y)?.get_mut(x)?;
        if *cell {
            return None;
        }
        *cell = true;
    }
    Some(out)
}
