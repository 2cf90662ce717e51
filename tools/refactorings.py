P = "src/predictor.py".replace(".py", ".rs")
REFACTORINGS = [
 ("pred-helper-prefix-sum", ["predictor"], [
    (P, """    for i in samples..input.len() {
        input[i] = input[i].wrapping_add(input[i - samples]);
    }
""", "    accumulate(input, samples);\n"),
    (P, "fn rev_predict_f16(", """fn accumulate(bytes: &mut [u8], distance: usize) {
    for i in distance..bytes.len() {
        bytes[i] = bytes[i].wrapping_add(bytes[i - distance]);
    }
}

fn rev_predict_f16("""),
 ]),
 ("pred-while-loop", ["predictor"], [
    (P, """            for i in (samples * 2..row.len()).step_by(2) {
                let v = u16::from_ne_bytes(row[i..][..2].try_into().unwrap());
                let p = u16::from_ne_bytes(row[i - 2 * samples..][..2].try_into().unwrap());
                row[i..][..2].copy_from_slice(&v.wrapping_add(p).to_ne_bytes());
            }
""", """            let mut i = 2 * samples;
            while i < row.len() {
                let prev = i - 2 * samples;
                let p = u16::from_ne_bytes(row[prev..prev + 2].try_into().unwrap());
                let v = u16::from_ne_bytes(row[i..i + 2].try_into().unwrap());
                row[i..i + 2].copy_from_slice(&p.wrapping_add(v).to_ne_bytes());
                i += 2;
            }
"""),
 ]),
 ("pred-early-swap", ["predictor"], [
    (P, """            9..=16 => buffer.chunks_exact_mut(2).for_each(|v| {
                v.copy_from_slice(&u16::from_be_bytes((*v).try_into().unwrap()).to_ne_bytes())
            }),""", """            9..=16 => {
                for v in buffer.chunks_exact_mut(2) {
                    v.swap(0, 1);
                }
            }"""),
 ]),
 ("pred-reverse-word", ["predictor"], [
    (P, """            17..=32 => buffer.chunks_exact_mut(4).for_each(|v| {
                v.copy_from_slice(&u32::from_be_bytes((*v).try_into().unwrap()).to_ne_bytes())
            }),""", """            17..=32 => {
                for word in buffer.chunks_exact_mut(4) {
                    word.reverse();
                }
            }"""),
 ]),
 ("pred-generic-plane", ["predictor"], [
    (P, """    for (i, chunk) in output.chunks_exact_mut(4).enumerate() {
        chunk.copy_from_slice(&u32::to_ne_bytes(u32::from_be_bytes([
            input[i],
            input[input.len() / 4 + i],
            input[input.len() / 4 * 2 + i],
            input[input.len() / 4 * 3 + i],
        ])));
    }
""", """    let plane = input.len() / 4;
    for (i, chunk) in output.chunks_exact_mut(4).enumerate() {
        let word = u32::from_be_bytes([
            input[i],
            input[plane + i],
            input[2 * plane + i],
            input[3 * plane + i],
        ]);
        chunk.copy_from_slice(&word.to_ne_bytes());
    }
"""),
 ]),
 ("pred-row-index", ["predictor"], [
    (P, """    for row in buffer.chunks_mut(row_stride) {
        rev_hpredict_row(row, bits_per_sample, samples);
    }
""", """    buffer
        .chunks_mut(row_stride)
        .for_each(|row| rev_hpredict_row(row, bits_per_sample, samples));
"""),
 ]),
 ("pred-match-outside", ["predictor"], [
    (P, """    let mut out = vec![0u8; buffer.len()];

    for (in_row, out_row) in buffer
        .chunks_mut(row_stride)
        .zip(out.chunks_mut(row_stride))
    {
        match bits_per_sample {
            16 => rev_predict_f16(in_row, out_row, samples),
            32 => rev_predict_f32(in_row, out_row, samples),
            64 => rev_predict_f64(in_row, out_row, samples),
            _ => {
                return Err(AsyncTiffError::General(format!(
                    "Floating-point predictor not supported for {bits_per_sample}-bit samples"
                )))
            }
        }
    }
""", """    let mut out = vec![0u8; buffer.len()];
    let rows = buffer.chunks_mut(row_stride).zip(out.chunks_mut(row_stride));

    for (in_row, out_row) in rows {
        if bits_per_sample == 16 {
            rev_predict_f16(in_row, out_row, samples);
        } else if bits_per_sample == 32 {
            rev_predict_f32(in_row, out_row, samples);
        } else if bits_per_sample == 64 {
            rev_predict_f64(in_row, out_row, samples);
        } else {
            return Err(AsyncTiffError::General(format!(
                "Floating-point predictor not supported for {bits_per_sample}-bit samples"
            )));
        }
    }
"""),
 ]),
 ("pred-word-helper", ["predictor"], [
    (P, """    let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
    let row_stride = tile_width * samples * bytes_per_sample;
    let word_size = match bits_per_sample {
        0..=8 => 1,
        9..=16 => 2,
        17..=32 => 4,
        33..=64 => 8,
        _ => {
            return Err(AsyncTiffError::General(format!(
                "Horizontal predictor not supported for {bits_per_sample}-bit samples"
            )))
        }
    };
""", """    let Some(word_size) = word_size(bits_per_sample) else {
        return Err(AsyncTiffError::General(format!(
            "Horizontal predictor not supported for {bits_per_sample}-bit samples"
        )));
    };
    let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
    let row_stride = tile_width * samples * bytes_per_sample;
"""),
    (P, "/// Reverse one row", """/// Size of the word a sample is stored in.
fn word_size(bits_per_sample: u16) -> Option<usize> {
    if bits_per_sample <= 8 {
        Some(1)
    } else if bits_per_sample <= 16 {
        Some(2)
    } else if bits_per_sample <= 32 {
        Some(4)
    } else if bits_per_sample <= 64 {
        Some(8)
    } else {
        None
    }
}

/// Reverse one row"""),
 ]),

 # ---- array
 ("arr-bitmask-bytes-loop", ["array"], [
    ("src/array.rs", """    let mut result = Vec::with_capacity(len);
    for i in 0..len {
        let byte_idx = i / 8;
        let bit_idx = 7 - (i % 8); // MSB first within each byte
        let bit = (data[byte_idx] >> bit_idx) & 1;
        result.push(bit == 1);
    }
    result
""", """    (0..len)
        .map(|i| {
            let mask = 0x80u8 >> (i % 8);
            data[i / 8] & mask != 0
        })
        .collect()
"""),
 ]),
 ("arr-bitmask-helper", ["array"], [
    ("src/array.rs", """        let byte_idx = i / 8;
        let bit_idx = 7 - (i % 8); // MSB first within each byte
        let bit = (data[byte_idx] >> bit_idx) & 1;
        result.push(bit == 1);
""", """        result.push(bit_is_set(data, i));
"""),
    ("src/array.rs", "/// Expands a packed bitmask", """fn bit_is_set(data: &[u8], i: usize) -> bool {
    let byte = data[i / 8];
    (byte >> (7 - (i & 7))) & 1 == 1
}

/// Expands a packed bitmask"""),
 ]),
 ("arr-bitmask-nested", ["array"], [
    ("src/array.rs", """    let mut result = Vec::with_capacity(len);
    for i in 0..len {
        let byte_idx = i / 8;
        let bit_idx = 7 - (i % 8); // MSB first within each byte
        let bit = (data[byte_idx] >> bit_idx) & 1;
        result.push(bit == 1);
    }
    result
""", """    let mut result = Vec::with_capacity(len);
    for &byte in data {
        for shift in (0..8).rev() {
            if result.len() == len {
                return result;
            }
            result.push((byte >> shift) & 1 == 1);
        }
    }
    result
"""),
 ]),
 ("arr-bitmask-take", ["array"], [
    ("src/array.rs", """    let mut result = Vec::with_capacity(len);
    for i in 0..len {
        let byte_idx = i / 8;
        let bit_idx = 7 - (i % 8); // MSB first within each byte
        let bit = (data[byte_idx] >> bit_idx) & 1;
        result.push(bit == 1);
    }
    result
""", """    data.iter()
        .flat_map(|byte| (0..8).map(move |i| (byte >> (7 - i)) & 1 == 1))
        .take(len)
        .collect()
"""),
 ]),
 ("arr-early-return", ["array"], [
    ("src/array.rs", """        let typed_data = if data_type == Some(DataType::Bool) {
            let required_bytes = expected_len.div_ceil(8);
            if data.len() < required_bytes {
                return Err(AsyncTiffError::General(format!(
                    "Bool data length {} is less than required {} bytes for {} elements",
                    data.len(),
                    required_bytes,
                    expected_len
                )));
            }
            TypedArray::Bool(expand_bitmask(&data, expected_len))
        } else {
            let typed_data = TypedArray::try_new(data, data_type)?;
            if typed_data.len() != expected_len {
                return Err(AsyncTiffError::General(format!(
                    "Internal error: incorrect shape or data length passed to Array::try_new. Got data length {}, expected {}",
                    typed_data.len(),
                    expected_len
                )));
            }
            typed_data
        };

        Ok(Self {
            data: typed_data,
            shape,
            data_type,
        })
""", """        if let Some(DataType::Bool) = data_type {
            return Self::try_new_bool(data, shape, expected_len);
        }
        let typed_data = TypedArray::try_new(data, data_type)?;
        if typed_data.len() == expected_len {
            Ok(Self {
                data: typed_data,
                shape,
                data_type,
            })
        } else {
            Err(AsyncTiffError::General(format!(
                "Internal error: incorrect shape or data length passed to Array::try_new. Got data length {}, expected {}",
                typed_data.len(),
                expected_len
            )))
        }
"""),
    ("src/array.rs", """    /// Access the raw underlying byte data of the array.
""", """    fn try_new_bool(data: Vec<u8>, shape: [usize; 3], expected_len: usize) -> AsyncTiffResult<Self> {
        let required_bytes = expected_len.div_ceil(8);
        if data.len() < required_bytes {
            return Err(AsyncTiffError::General(format!(
                "Bool data length {} is less than required {} bytes for {} elements",
                data.len(),
                required_bytes,
                expected_len
            )));
        }
        let mask = expand_bitmask(&data, expected_len);
        Ok(Self {
            data: TypedArray::Bool(mask),
            shape,
            data_type: Some(DataType::Bool),
        })
    }

    /// Access the raw underlying byte data of the array.
"""),
 ]),
 ("arr-check-helper", ["array"], [
    ("src/array.rs", """                if !data.len().is_multiple_of(2) {
                    return Err(AsyncTiffError::General(format!(
                        "Data length {} is not divisible by UInt16 size (2 bytes)",
                        data.len()
                    )));
                }
""", """                check_divisible(data.len(), 2, "UInt16")?;
"""),
    ("src/array.rs", """                if !data.len().is_multiple_of(4) {
                    return Err(AsyncTiffError::General(format!(
                        "Data length {} is not divisible by Float32 size (4 bytes)",
                        data.len()
                    )));
                }
""", """                check_divisible(data.len(), 4, "Float32")?;
"""),
    ("src/array.rs", "/// Expands a packed bitmask", """fn check_divisible(len: usize, size: usize, name: &str) -> AsyncTiffResult<()> {
    if len % size != 0 {
        return Err(AsyncTiffError::General(format!(
            "Data length {len} is not divisible by {name} size ({size} bytes)"
        )));
    }
    Ok(())
}

/// Expands a packed bitmask"""),
 ]),
 ("arr-fallback-match", ["array"], [
    ("src/array.rs", """                Ok(TypedArray::UInt32(try_cast_vec(data).unwrap_or_else(
                    |(_, data)| {
                        // Fallback to manual conversion when not aligned
                        data.chunks_exact(4)
                            .map(|b| u32::from_ne_bytes([b[0], b[1], b[2], b[3]]))
                            .collect()
                    },
                )))
""", """                let values = match try_cast_vec(data) {
                    Ok(values) => values,
                    Err((_, data)) => {
                        let mut values = Vec::with_capacity(data.len() / 4);
                        for b in data.chunks_exact(4) {
                            values.push(u32::from_ne_bytes([b[0], b[1], b[2], b[3]]));
                        }
                        values
                    }
                };
                Ok(TypedArray::UInt32(values))
"""),
    ("src/array.rs", """                        data.chunks_exact(2)
                            .map(|b| u16::from_ne_bytes([b[0], b[1]]))
                            .collect()
""", """                        data.chunks_exact(2)
                            .map(|b| u16::from_ne_bytes(b.try_into().unwrap()))
                            .collect::<Vec<u16>>()
"""),
 ]),
 # ---- tiles
 ("tiles-index-helper", ["tiles"], [
    ("src/ifd.rs", """                let idx = (y * tiles_per_row) + x;
                let offset = *tile_offsets.get(idx)?;
                let byte_count = *tile_byte_counts.get(idx)?;
                let end = offset.checked_add(byte_count)?;
                Some(TileByteRange::Chunky(offset..end))
""", """                let idx = x + tiles_per_row * y;
                Some(TileByteRange::Chunky(ifd_range(tile_offsets, tile_byte_counts, idx)?))
"""),
    ("src/ifd.rs", """                        let offset = *tile_offsets.get(band_idx)?;
                        let byte_count = *tile_byte_counts.get(band_idx)?;
                        Some(offset..offset.checked_add(byte_count)?)
""", """                        ifd_range(tile_offsets, tile_byte_counts, band_idx)
"""),
    ("src/ifd.rs", """impl TileByteRange {
    async""", """fn ifd_range(offsets: &[u64], counts: &[u64], idx: usize) -> Option<Range<u64>> {
    let start = *offsets.get(idx)?;
    let len = *counts.get(idx)?;
    Some(start..start.checked_add(len)?)
}

impl TileByteRange {
    async"""),
 ]),
 ("tiles-index-distributed", ["tiles"], [
    ("src/ifd.rs", """                        let band_idx = (band.checked_mul(tiles_per_band)?)
                            .checked_add(y * tiles_per_row + x)?;
""", """                        let row = band.checked_mul(tiles_per_col)?.checked_add(y)?;
                        let band_idx = row.checked_mul(tiles_per_row)?.checked_add(x)?;
"""),
    ("src/ifd.rs", "                let tiles_per_band = tiles_per_row * tiles_per_col;\n", ""),
 ]),
 ("tiles-loop-not-collect", ["tiles"], [
    ("src/ifd.rs", """                let band_ranges = (0..num_bands)
                    .map(|band| {
                        let band_idx = (band.checked_mul(tiles_per_band)?)
                            .checked_add(y * tiles_per_row + x)?;
                        let offset = *tile_offsets.get(band_idx)?;
                        let byte_count = *tile_byte_counts.get(band_idx)?;
                        Some(offset..offset.checked_add(byte_count)?)
                    })
                    .collect::<Option<Vec<_>>>()?;
                Some(TileByteRange::Planar(band_ranges))
""", """                let tile_in_band = y * tiles_per_row + x;
                let mut band_ranges = Vec::new();
                for band in 0..num_bands {
                    let band_idx = band.checked_mul(tiles_per_band)?.checked_add(tile_in_band)?;
                    let start = *tile_offsets.get(band_idx)?;
                    let end = start.checked_add(*tile_byte_counts.get(band_idx)?)?;
                    band_ranges.push(start..end);
                }
                Some(TileByteRange::Planar(band_ranges))
"""),
 ]),
 ("tiles-count-div-ceil", ["tiles"], [
    ("src/ifd.rs", """        if self.tile_width == Some(0) || self.tile_height == Some(0) {
            return None;
        }
        let x_count = (self.image_width as f64 / self.tile_width? as f64).ceil();
        let y_count = (self.image_height as f64 / self.tile_height? as f64).ceil();
        Some((x_count as usize, y_count as usize))
""", """        let (tile_width, tile_height) = (self.tile_width?, self.tile_height?);
        if tile_width == 0 || tile_height == 0 {
            return None;
        }
        let x_count = self.image_width.div_ceil(tile_width);
        let y_count = self.image_height.div_ceil(tile_height);
        Some((x_count as usize, y_count as usize))
"""),
 ]),
 ("tiles-fetch-loop", ["tiles"], [
    ("src/ifd.rs", """                // Re-chunk the flat results back into per-tile band vecs
                let mut flat_iter = flat_buffers.into_iter();
                band_counts
                    .into_iter()
                    .map(|n| {
                        let band_bytes: Vec<Bytes> = flat_iter.by_ref().take(n).collect();
                        Ok(CompressedBytes::Planar(band_bytes))
                    })
                    .collect()
""", """                // Re-chunk the flat results back into per-tile band vecs
                let mut flat_iter = flat_buffers.into_iter();
                let mut tiles = Vec::with_capacity(band_counts.len());
                for n in band_counts {
                    let band_bytes: Vec<Bytes> = flat_iter.by_ref().take(n).collect();
                    tiles.push(CompressedBytes::Planar(band_bytes));
                }
                Ok(tiles)
"""),
    ("src/ifd.rs", """                Ok(buffers.into_iter().map(CompressedBytes::Chunky).collect())
""", """                let mut tiles = Vec::new();
                for buffer in buffers {
                    tiles.push(CompressedBytes::Chunky(buffer));
                }
                Ok(tiles)
"""),
 ]),
 ("tiles-fetch-tiles-loop", ["tiles"], [
    ("src/ifd.rs", """        Ok(compressed_bytes
            .into_iter()
            .zip(xy)
            .map(|(buffer, (x, y))| buffer.into_tile(*x, *y, self))
            .collect())
""", """        let mut tiles = Vec::with_capacity(xy.len());
        for (buffer, &(x, y)) in compressed_bytes.into_iter().zip(xy.iter()) {
            tiles.push(buffer.into_tile(x, y, self));
        }
        Ok(tiles)
"""),
 ]),
 ("tiles-ok-or-else", ["tiles"], [
    ("src/ifd.rs", """        let byte_ranges = self.tile_byte_range(x, y).ok_or(AsyncTiffError::General(
            "Not a tiled TIFF, or tile index out of range".to_string(),
        ))?;
        let compressed_bytes = byte_ranges.into_fetch(reader).await?;
        Ok(compressed_bytes.into_tile(x, y, self))
""", """        let Some(byte_ranges) = self.tile_byte_range(x, y) else {
            return Err(AsyncTiffError::General(
                "Not a tiled TIFF, or tile index out of range".to_string(),
            ));
        };
        byte_ranges
            .into_fetch(reader)
            .await
            .map(|compressed_bytes| compressed_bytes.into_tile(x, y, self))
"""),
 ]),
 ("tiles-from-ifd-match-loop", ["tiles"], [
    ("src/ifd.rs", """                let chunky_ranges = ranges
                    .into_iter()
                    .map(|r| match r {
                        TileByteRange::Chunky(range) => range,
                        _ => unreachable!(),
                    })
                    .collect();
                Some(TilesByteRanges::Chunky(chunky_ranges))
""", """                let mut chunky_ranges = Vec::with_capacity(ranges.len());
                for r in ranges {
                    match r {
                        TileByteRange::Chunky(range) => chunky_ranges.push(range),
                        TileByteRange::Planar(_) => unreachable!(),
                    }
                }
                Some(TilesByteRanges::Chunky(chunky_ranges))
"""),
    ("src/ifd.rs", """        let ranges = xy
            .iter()
            .map(|(x, y)| TileByteRange::from_ifd_tile(ifd, *x, *y))
            .collect::<Option<Vec<_>>>()?;
""", """        let mut ranges = Vec::with_capacity(xy.len());
        for &(x, y) in xy {
            ranges.push(TileByteRange::from_ifd_tile(ifd, x, y)?);
        }
"""),
 ]),
 ("tiles-in-range-helper", ["tiles"], [
    ("src/ifd.rs", """        if x >= tiles_per_row || y >= tiles_per_col {
            return None;
        }
        match""", """        if !contains_tile((tiles_per_row, tiles_per_col), x, y) {
            return None;
        }
        match"""),
    ("src/ifd.rs", """impl TileByteRange {
    async""", """fn contains_tile(count: (usize, usize), x: usize, y: usize) -> bool {
    let (cols, rows) = count;
    x < cols && y < rows
}

impl TileByteRange {
    async"""),
 ]),

 # ---- tag_value
 ("tv-collect", ["tag_value"], [
    ("src/tag_value.rs", """                let mut new_vec = Vec::with_capacity(vec.len());
                for v in vec {
                    new_vec.push(v.into_u32()?)
                }
                Ok(new_vec)
""", """                vec.into_iter().map(|v| v.into_u32()).collect()
"""),
    ("src/tag_value.rs", """                let mut new_vec = Vec::with_capacity(vec.len());
                for v in vec {
                    new_vec.push(v.into_u16()?)
                }
                Ok(new_vec)
""", """                vec.into_iter().map(TagValue::into_u16).collect::<TiffResult<Vec<_>>>()
"""),
 ]),
 ("tv-or-patterns", ["tag_value"], [
    ("src/tag_value.rs", """            Unsigned(val) => Ok(val),
            UnsignedBig(val) => Ok(u32::try_from(val)?),
            Ifd(val) => Ok(val),
            IfdBig(val) => Ok(u32::try_from(val)?),
""", """            Unsigned(val) | Ifd(val) => Ok(val),
            UnsignedBig(val) | IfdBig(val) => u32::try_from(val).map_err(Into::into),
"""),
    ("src/tag_value.rs", """            Byte(val) => Ok(val.into()),
            Short(val) => Ok(val.into()),
            Unsigned(val) => Ok(val.into()),
            UnsignedBig(val) => Ok(val),
            Ifd(val) => Ok(val.into()),
            IfdBig(val) => Ok(val),
""", """            Byte(val) => Ok(u64::from(val)),
            Short(val) => Ok(val as u64),
            Unsigned(val) | Ifd(val) => Ok(u64::from(val)),
            UnsignedBig(val) | IfdBig(val) => Ok(val),
"""),
 ]),
 ("tv-helper-pushes", ["tag_value"], [
    ("src/tag_value.rs", """                for v in vec {
                    match v {
                        SRational(numerator, denominator) => {
                            new_vec.push(numerator.into());
                            new_vec.push(denominator.into());
                        }
                        SRationalBig(numerator, denominator) => {
                            new_vec.push(numerator);
                            new_vec.push(denominator);
                        }
                        _ => new_vec.push(v.into_i64()?),
                    }
                }
""", """                for v in vec {
                    if let SRational(numerator, denominator) = v {
                        new_vec.push(i64::from(numerator));
                        new_vec.push(i64::from(denominator));
                    } else if let SRationalBig(numerator, denominator) = v {
                        new_vec.push(numerator);
                        new_vec.push(denominator);
                    } else {
                        let single = v.into_i64()?;
                        new_vec.push(single);
                    }
                }
"""),
 ]),
 ("tv-via-wider", ["tag_value"], [
    ("src/tag_value.rs", """        match self {
            SignedByte(val) => Ok(val.into()),
            SignedShort(val) => Ok(val),
            Signed(val) => Ok(i16::try_from(val)?),
            SignedBig(val) => Ok(i16::try_from(val)?),
            val => Err(TiffError::FormatError(
                TiffFormatError::SignedShortExpected(val),
            )),
        }
""", """        let value: i64 = match self {
            SignedByte(val) => val.into(),
            SignedShort(val) => val.into(),
            Signed(val) => val.into(),
            SignedBig(val) => val,
            val => {
                return Err(TiffError::FormatError(
                    TiffFormatError::SignedShortExpected(val),
                ))
            }
        };
        Ok(i16::try_from(value)?)
"""),
 ]),
 # ---- data_type
 ("dt-any", ["data_type"], [
    ("src/data_type.rs", """        if !sample_format.iter().all(|f| f == first_format) {
            return None;
        }
        if !bits_per_sample.iter().all(|b| b == first_bits) {
            return None;
        }
""", """        let mixed_formats = sample_format.iter().any(|f| f != first_format);
        let mixed_bits = bits_per_sample.iter().skip(1).any(|b| *b != *first_bits);
        if mixed_formats || mixed_bits {
            return None;
        }
"""),
 ]),
 ("dt-loop-helper", ["data_type"], [
    ("src/data_type.rs", """        if !sample_format.iter().all(|f| f == first_format) {
            return None;
        }
        if !bits_per_sample.iter().all(|b| b == first_bits) {
            return None;
        }
""", """        for format in sample_format {
            if format != first_format {
                return None;
            }
        }
        for bits in &bits_per_sample[1..] {
            if bits != first_bits {
                return None;
            }
        }
"""),
 ]),
 ("dt-nested-match", ["data_type"], [
    ("src/data_type.rs", """        match (first_format, first_bits) {
            (SampleFormat::Uint, 1) => Some(DataType::Bool),
            (SampleFormat::Uint, 8) => Some(DataType::UInt8),
            (SampleFormat::Uint, 16) => Some(DataType::UInt16),
            (SampleFormat::Uint, 32) => Some(DataType::UInt32),
            (SampleFormat::Uint, 64) => Some(DataType::UInt64),
            (SampleFormat::Int, 8) => Some(DataType::Int8),
            (SampleFormat::Int, 16) => Some(DataType::Int16),
            (SampleFormat::Int, 32) => Some(DataType::Int32),
            (SampleFormat::Int, 64) => Some(DataType::Int64),
            (SampleFormat::Float, 32) => Some(DataType::Float32),
            (SampleFormat::Float, 64) => Some(DataType::Float64),
            // Unsupported combinations (e.g., Void, Unknown, or unusual bit depths)
            _ => None,
        }
""", """        let data_type = match *first_format {
            SampleFormat::Uint => match *first_bits {
                1 => DataType::Bool,
                8 => DataType::UInt8,
                16 => DataType::UInt16,
                32 => DataType::UInt32,
                64 => DataType::UInt64,
                _ => return None,
            },
            SampleFormat::Int => match *first_bits {
                8 => DataType::Int8,
                16 => DataType::Int16,
                32 => DataType::Int32,
                64 => DataType::Int64,
                _ => return None,
            },
            SampleFormat::Float => match *first_bits {
                32 => DataType::Float32,
                64 => DataType::Float64,
                _ => return None,
            },
            _ => return None,
        };
        Some(data_type)
"""),
 ]),
 # ---- decode
 ("dec-helper-order", ["decode"], [
    ("src/tile.rs", """        let endianness = match self.compression_method {
            Compression::ModernJPEG | Compression::JPEG2k | Compression::LERC => {
                if cfg!(target_endian = "little") {
                    Endianness::LittleEndian
                } else {
                    Endianness::BigEndian
                }
            }
            _ => self.endianness,
        };
""", """        let endianness = decoded_endianness(self.compression_method, self.endianness);
"""),
    ("src/tile.rs", "fn infer_shape(", """fn decoded_endianness(compression: Compression, file: Endianness) -> Endianness {
    let native = if cfg!(target_endian = "little") {
        Endianness::LittleEndian
    } else {
        Endianness::BigEndian
    };
    if matches!(
        compression,
        Compression::ModernJPEG | Compression::JPEG2k | Compression::LERC
    ) {
        native
    } else {
        file
    }
}

fn infer_shape("""),
 ]),
 ("dec-planar-append", ["decode"], [
    ("src/tile.rs", """                for band_data in band_bytes {
                    let decoded_band = decoder.decode_tile(
                        band_data.clone(),
                        self.photometric_interpretation,
                        self.jpeg_tables.as_deref(),
                        1,
                        bits_per_sample,
                        self.lerc_parameters.as_deref(),
                    )?;
                    result.extend_from_slice(&decoded_band);
                }
""", """                for band_data in band_bytes.iter() {
                    let mut decoded_band = decoder.decode_tile(
                        band_data.clone(),
                        self.photometric_interpretation,
                        self.jpeg_tables.as_deref(),
                        1,
                        bits_per_sample,
                        self.lerc_parameters.as_deref(),
                    )?;
                    result.append(&mut decoded_band);
                }
"""),
 ]),
 ("dec-planar-extend", ["decode"], [
    ("src/tile.rs", """                    result.extend_from_slice(&decoded_band);
""", """                    result.extend(decoded_band);
"""),
 ]),
 ("dec-shape-inline", ["decode"], [
    ("src/tile.rs", """        let shape = infer_shape(
            self.planar_configuration,
            self.width as _,
            self.height as _,
            samples,
        );
        Array::try_new(decoded, shape, self.data_type)
""", """        let height = self.height as usize;
        let shape = match self.planar_configuration {
            PlanarConfiguration::Chunky => [height, tile_width, samples],
            PlanarConfiguration::Planar => [samples, height, tile_width],
        };
        Array::try_new(decoded, shape, self.data_type)
"""),
 ]),
 ("dec-decode-bytes-helper", ["decode"], [
    ("src/tile.rs", """        let mut decoded_tile = match &self.compressed_bytes {
            CompressedBytes::Chunky(bytes) => decoder.decode_tile(
                bytes.clone(),
                self.photometric_interpretation,
                self.jpeg_tables.as_deref(),
                self.samples_per_pixel,
                bits_per_sample,
                self.lerc_parameters.as_deref(),
            )?,
            CompressedBytes::Planar(band_bytes) => {
                let mut result = Vec::new();

                for band_data in band_bytes {
                    let decoded_band = decoder.decode_tile(
                        band_data.clone(),
                        self.photometric_interpretation,
                        self.jpeg_tables.as_deref(),
                        1,
                        bits_per_sample,
                        self.lerc_parameters.as_deref(),
                    )?;
                    result.extend_from_slice(&decoded_band);
                }

                result
            }
        };
""", """        let decode_chunk = |bytes: &Bytes, samples_per_pixel: u16| {
            decoder.decode_tile(
                bytes.clone(),
                self.photometric_interpretation,
                self.jpeg_tables.as_deref(),
                samples_per_pixel,
                bits_per_sample,
                self.lerc_parameters.as_deref(),
            )
        };
        let mut decoded_tile = match &self.compressed_bytes {
            CompressedBytes::Chunky(bytes) => decode_chunk(bytes, self.samples_per_pixel)?,
            CompressedBytes::Planar(band_bytes) => {
                let mut result = Vec::new();
                for band_data in band_bytes {
                    result.extend_from_slice(&decode_chunk(band_data, 1)?);
                }
                result
            }
        };
"""),
 ]),
 # ---- cache
 ("cache-slice-helper", ["cache"], [
    ("src/metadata/cache.rs", """            // we slice bytes out of *this* block
            let start = remaining.start as usize;
            let length =
                (remaining.end - remaining.start).min(current_buf_len - remaining.start) as usize;
            let end = start + length;
""", """            // we slice bytes out of *this* block
            let start = remaining.start as usize;
            let end = remaining.end.min(current_buf_len) as usize;
"""),
 ]),
 ("cache-concat", ["cache"], [
    ("src/metadata/cache.rs", """        if out_buffers.len() == 1 {
            out_buffers.into_iter().next().unwrap()
        } else {
            let mut out = BytesMut::with_capacity(out_len);
            for b in out_buffers {
                out.extend_from_slice(&b);
            }
            out.into()
        }
""", """        if out_buffers.len() == 1 {
            return out_buffers.remove(0);
        }
        let mut out = BytesMut::with_capacity(out_len);
        for b in &out_buffers {
            out.extend_from_slice(b);
        }
        out.freeze()
"""),
 ]),
 ("cache-fetch-restructured", ["cache"], [
    ("src/metadata/cache.rs", """        // First check if we already have the range cached
        if cache.contains(range.start..range.end) {
            return Ok(cache.slice(range));
        }

        // Compute the correct fetch range
        let start_len = cache.len;
        let needed = range.end.saturating_sub(start_len);
        let fetch_size = self.next_fetch_size(start_len).max(needed);
        let fetch_range = start_len..start_len.saturating_add(fetch_size);

        // Perform the fetch while holding mutex
        // (this is OK because the mutex is async)
        let bytes = self.inner.fetch(fetch_range).await?;

        // Now append safely
        cache.append_buffer(bytes);

        Ok(cache.slice(range))
""", """        if !cache.contains(range.clone()) {
            let cached = cache.len;
            let needed = range.end - cached;
            let size = std::cmp::max(needed, self.next_fetch_size(cached));
            let bytes = self
                .inner
                .fetch(cached..cached.saturating_add(size))
                .await?;
            cache.append_buffer(bytes);
        }

        Ok(cache.slice(range))
"""),
 ]),
 ("cache-append-order", ["cache"], [
    ("src/metadata/cache.rs", """        self.len += buffer.len() as u64;
        self.buffers.push(buffer);
""", """        let added = buffer.len() as u64;
        self.buffers.push(buffer);
        self.len += added;
"""),
    ("src/metadata/cache.rs", """        if existing_len == 0 {
            self.initial
        } else {
            (existing_len as f64 * self.multiplier).round() as u64
        }
""", """        if existing_len > 0 {
            let grown = existing_len as f64 * self.multiplier;
            grown.round() as u64
        } else {
            self.initial
        }
"""),
 ]),
 # ---- meta
 ("meta-match-magic", ["meta"], [
    ("src/metadata/reader.rs", """        let endianness = if magic_bytes == Bytes::from_static(b"II") {
            Endianness::LittleEndian
        } else if magic_bytes == Bytes::from_static(b"MM") {
            Endianness::BigEndian
        } else {
            return Err(AsyncTiffError::General(format!(
                "unexpected magic bytes {magic_bytes:?}"
            )));
        };
""", """        let endianness = match magic_bytes.as_ref() {
            b"II" => Endianness::LittleEndian,
            b"MM" => Endianness::BigEndian,
            _ => {
                return Err(AsyncTiffError::General(format!(
                    "unexpected magic bytes {magic_bytes:?}"
                )))
            }
        };
"""),
 ]),
 ("meta-offset-helper", ["meta"], [
    ("src/metadata/reader.rs", """        let first_ifd_location = if bigtiff {
            cursor.read_u64().await?
        } else {
            cursor.read_u32().await?.into()
        };
""", """        let first_ifd_location = read_offset(&mut cursor, bigtiff).await?;
"""),
    ("src/metadata/reader.rs", """        let next_ifd_offset = if self.bigtiff {
            cursor.read_u64().await?
        } else {
            cursor.read_u32().await?.into()
        };

        // If the ifd_offset is 0, no more IFDs
        if next_ifd_offset == 0 {
            Ok(None)
        } else {
            Ok(Some(next_ifd_offset))
        }
""", """        // If the ifd_offset is 0, no more IFDs
        match read_offset(&mut cursor, self.bigtiff).await? {
            0 => Ok(None),
            offset => Ok(Some(offset)),
        }
"""),
    ("src/metadata/reader.rs", "/// Read a single tag from the cursor\n", """/// Read a file offset
async fn read_offset<F: MetadataFetch>(
    cursor: &mut MetadataCursor<'_, F>,
    bigtiff: bool,
) -> AsyncTiffResult<u64> {
    if bigtiff {
        cursor.read_u64().await
    } else {
        Ok(u64::from(cursor.read_u32().await?))
    }
}

/// Read a single tag from the cursor
"""),
 ]),
 ("meta-entry-offset-try", ["meta"], [
    ("src/metadata/reader.rs", """        self.ifd_entry_byte_size
            .checked_mul(tag_idx)
            .and_then(|size| size.checked_add(self.tag_count_byte_size))
            .and_then(|size| size.checked_add(self.ifd_start_offset))
            .ok_or(TiffError::IntSizeError.into())
""", """        let entries = tag_idx
            .checked_mul(self.ifd_entry_byte_size)
            .ok_or(TiffError::IntSizeError)?;
        let start = self
            .ifd_start_offset
            .checked_add(self.tag_count_byte_size)
            .ok_or(TiffError::IntSizeError)?;
        Ok(start.checked_add(entries).ok_or(TiffError::IntSizeError)?)
"""),
 ]),
 ("meta-loop-rewritten", ["meta"], [
    ("src/metadata/reader.rs", """        while let Some(ifd) = self.read_next_ifd(fetch).await? {
            if let Some(offset) = self.next_ifd_offset {
                if !visited.insert(offset) {
                    return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
                }
            }
            ifds.push(ifd);
        }
        Ok(ifds)
""", """        loop {
            let Some(ifd) = self.read_next_ifd(fetch).await? else {
                return Ok(ifds);
            };
            ifds.push(ifd);
            match self.next_ifd_offset {
                Some(offset) if !visited.insert(offset) => {
                    return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
                }
                _ => {}
            }
        }
"""),
 ]),
 ("meta-next-early-return", ["meta"], [
    ("src/metadata/reader.rs", """        if let Some(ifd_start) = self.next_ifd_offset {
            let ifd_reader =
                ImageFileDirectoryReader::open(fetch, ifd_start, self.bigtiff, self.endianness)
                    .await?;
            let ifd = ifd_reader.read(fetch).await?;
            let next_ifd_offset = ifd_reader.finish(fetch).await?;
            self.next_ifd_offset = next_ifd_offset;
            Ok(Some(ifd))
        } else {
            Ok(None)
        }
""", """        let ifd_start = match self.next_ifd_offset {
            Some(ifd_start) => ifd_start,
            None => return Ok(None),
        };
        let (bigtiff, endianness) = (self.bigtiff, self.endianness);
        let ifd_reader = ImageFileDirectoryReader::open(fetch, ifd_start, bigtiff, endianness).await?;
        let ifd = ifd_reader.read(fetch).await?;
        self.next_ifd_offset = ifd_reader.finish(fetch).await?;
        Ok(Some(ifd))
"""),
 ]),
 ("meta-tag-while", ["meta"], [
    ("src/metadata/reader.rs", """        for tag_idx in 0..self.tag_count {
            let (tag, value) = self.read_tag(fetch, tag_idx).await?;
            tags.insert(tag, value);
        }
""", """        let mut tag_idx = 0;
        while tag_idx < self.tag_count {
            let entry = self.read_tag(fetch, tag_idx).await?;
            tags.insert(entry.0, entry.1);
            tag_idx += 1;
        }
"""),
 ]),
 ("meta-cursor-helper", ["meta", "meta_value"], [
    ("src/metadata/fetch.rs", """        let end = self
            .offset
            .checked_add(length)
            .ok_or(TiffError::IntSizeError)?;
        let range = self.offset..end;
        self.offset = end;
        let bytes = self.fetch.fetch(range).await?;
        Ok(EndianAwareReader::new(bytes, self.endianness))
""", """        let start = self.offset;
        let Some(end) = start.checked_add(length) else {
            return Err(TiffError::IntSizeError.into());
        };
        self.seek(end);
        let bytes = self.fetch.fetch(start..end).await?;
        Ok(EndianAwareReader::new(bytes, self.endianness))
"""),
 ]),
 # ---- meta_value
 ("mv-size-helper", ["meta_value"], [
    ("src/metadata/reader.rs", """    let tag_size = match tag_type {
        Type::BYTE | Type::SBYTE | Type::ASCII | Type::UNDEFINED => 1,
        Type::SHORT | Type::SSHORT => 2,
        Type::LONG | Type::SLONG | Type::FLOAT | Type::IFD => 4,
        Type::LONG8
        | Type::SLONG8
        | Type::DOUBLE
        | Type::RATIONAL
        | Type::SRATIONAL
        | Type::IFD8 => 8,
    };

    let value_byte_length = count
        .checked_mul(tag_size)
        .ok_or(TiffError::FormatError(TiffFormatError::InvalidTag))?;
""", """    let value_byte_length = count
        .checked_mul(type_size(tag_type))
        .ok_or(TiffError::FormatError(TiffFormatError::InvalidTag))?;
"""),
    ("src/metadata/reader.rs", "/// Read a tag's value from the cursor\n", """/// The size of one value
fn type_size(tag_type: Type) -> u64 {
    match tag_type {
        Type::BYTE | Type::SBYTE | Type::ASCII | Type::UNDEFINED => 1,
        Type::SHORT | Type::SSHORT => 2,
        Type::LONG | Type::SLONG | Type::FLOAT | Type::IFD => 4,
        Type::LONG8
        | Type::SLONG8
        | Type::DOUBLE
        | Type::RATIONAL
        | Type::SRATIONAL
        | Type::IFD8 => 8,
    }
}

/// Read a tag's value from the cursor
"""),
 ]),
 ("mv-inline-loop", ["meta_value"], [
    ("src/metadata/reader.rs", """                return {
                    Ok(TagValue::List(
                        (0..count)
                            .map(|_| Ok(TagValue::Byte(data.read_u8()?)))
                            .collect::<AsyncTiffResult<_>>()?,
                    ))
                };
""", """                let mut values = Vec::new();
                for _ in 0..count {
                    values.push(TagValue::Byte(data.read_u8()?));
                }
                return Ok(TagValue::List(values));
"""),
 ]),
 ("mv-rational-helper", ["meta_value"], [
    ("src/metadata/reader.rs", """            Type::RATIONAL => {
                let offset = data.read_u32()?;
                cursor.seek(offset as _);
                let numerator = cursor.read_u32().await?;
                let denominator = cursor.read_u32().await?;
                TagValue::Rational(numerator, denominator)
            }
""", """            Type::RATIONAL => {
                cursor.seek(data.read_u32()?.into());
                read_rational(cursor).await?
            }
"""),
    ("src/metadata/reader.rs", """                v.push(TagValue::Rational(
                    cursor.read_u32().await?,
                    cursor.read_u32().await?,
                ))
""", """                v.push(read_rational(cursor).await?)
"""),
    ("src/metadata/reader.rs", "/// Read a tag's value from the cursor\n", """async fn read_rational<F: MetadataFetch>(
    cursor: &mut MetadataCursor<'_, F>,
) -> AsyncTiffResult<TagValue> {
    let numerator = cursor.read_u32().await?;
    let denominator = cursor.read_u32().await?;
    Ok(TagValue::Rational(numerator, denominator))
}

/// Read a tag's value from the cursor
"""),
 ]),
 ("mv-while-loop", ["meta_value"], [
    ("src/metadata/reader.rs", """            let mut v = Vec::with_capacity(capacity);
            for _ in 0..count {
                v.push(TagValue::Double(cursor.read_f64().await?))
            }
            Ok(TagValue::List(v))
""", """            let mut values = Vec::with_capacity(capacity);
            let mut left = count;
            while left > 0 {
                let value = cursor.read_f64().await?;
                values.push(TagValue::Double(value));
                left -= 1;
            }
            Ok(TagValue::List(values))
"""),
 ]),
 # ---- ifd, geo
 ("ifd-for-loop", ["ifd"], [
    ("src/ifd.rs", "        tag_data.into_iter().try_for_each(|(tag, value)| {\n", "        for (tag, value) in tag_data {\n"),
    ("src/ifd.rs", """                        return Err(TiffError::FormatError(
                            TiffFormatError::InvalidTagValueType(tag),
                        ))
""", """                        return Err(TiffError::FormatError(
                            TiffFormatError::InvalidTagValueType(tag),
                        )
                        .into())
"""),
    ("src/ifd.rs", """            };
            Ok::<_, TiffError>(())
        })?;

        let mut geo_key_directory = None;
""", """            };
        }

        let mut geo_key_directory = None;
"""),
 ]),
 ("ifd-planar-default", ["ifd"], [
    ("src/ifd.rs", """        let planar_configuration = if let Some(planar_configuration) = planar_configuration {
            planar_configuration
        } else if samples_per_pixel == 1 {
            // If SamplesPerPixel is 1, PlanarConfiguration is irrelevant, and need not be included.
            // https://web.archive.org/web/20240329145253/https://www.awaresystems.be/imaging/tiff/tifftags/planarconfiguration.html
            PlanarConfiguration::Chunky
        } else {
            PlanarConfiguration::Chunky
        };
""", """        let planar_configuration = planar_configuration.unwrap_or(PlanarConfiguration::Chunky);
"""),
    ("src/ifd.rs", """            sample_format: sample_format
                .unwrap_or(vec![SampleFormat::Uint; samples_per_pixel as _]),
""", """            sample_format: sample_format
                .unwrap_or_else(|| vec![SampleFormat::Uint; samples_per_pixel as usize]),
"""),
 ]),
 ("ifd-extra-samples-loop", ["ifd"], [
    ("src/ifd.rs", """                    extra_samples = Some(
                        values
                            .into_iter()
                            .map(|val| {
                                ExtraSamples::from_u16(val)
                                    .ok_or(TiffError::FormatError(TiffFormatError::InvalidTag))
                            })
                            .collect::<Result<Vec<_>, _>>()?,
                    );
""", """                    let mut samples = Vec::with_capacity(values.len());
                    for val in values {
                        match ExtraSamples::from_u16(val) {
                            Some(sample) => samples.push(sample),
                            None => {
                                return Err(TiffError::FormatError(TiffFormatError::InvalidTag))
                            }
                        }
                    }
                    extra_samples = Some(samples);
"""),
 ]),
 ("ifd-resolution-helper", ["ifd"], [
    ("src/ifd.rs", """                Tag::XResolution => match value {
                    TagValue::Rational(n, d) => x_resolution = Some(n as f64 / d as f64),
                    _ => {
                        return Err(TiffError::FormatError(
                            TiffFormatError::InvalidTagValueType(tag),
                        ))
                    }
                },
                Tag::YResolution => match value {
                    TagValue::Rational(n, d) => y_resolution = Some(n as f64 / d as f64),
                    _ => {
                        return Err(TiffError::FormatError(
                            TiffFormatError::InvalidTagValueType(tag),
                        ))
                    }
                },
""", """                Tag::XResolution => x_resolution = Some(resolution(tag, value)?),
                Tag::YResolution => y_resolution = Some(resolution(tag, value)?),
"""),
    ("src/ifd.rs", "/// A description of the byte ranges for a tile, which", """fn resolution(tag: Tag, value: TagValue) -> Result<f64, TiffError> {
    if let TagValue::Rational(n, d) = value {
        Ok(n as f64 / d as f64)
    } else {
        Err(TiffError::FormatError(TiffFormatError::InvalidTagValueType(tag)))
    }
}

/// A description of the byte ranges for a tile, which"""),
 ]),
 ("ifdgeo-helper", ["ifd_geo"], [
    ("src/ifd.rs", """                    let value = if count == 1 {
                        TagValue::Double(values[0])
                    } else {
                        let x = values.iter().map(|val| TagValue::Double(*val)).collect();
                        TagValue::List(x)
                    };
                    tags.insert(tag_name, value);
""", """                    let value = match values {
                        [value] => TagValue::Double(*value),
                        _ => TagValue::List(values.iter().copied().map(TagValue::Double).collect()),
                    };
                    tags.insert(tag_name, value);
"""),
 ]),
 ("ifdgeo-strip-suffix", ["ifd_geo"], [
    ("src/ifd.rs", """                    let mut s = geo_ascii_params
                        .get(value_offset..value_offset + count as usize)
                        .ok_or(invalid_geo_keys("a string is out of bounds"))?;

                    // It seems that this string subslice might always include the final |
                    // character?
                    if s.ends_with('|') {
                        s = &s[0..s.len() - 1];
                    }

                    tags.insert(tag_name, TagValue::Ascii(s.to_string()));
""", """                    let s = geo_ascii_params
                        .get(value_offset..value_offset + count as usize)
                        .ok_or(invalid_geo_keys("a string is out of bounds"))?;

                    // It seems that this string subslice might always include the final |
                    // character?
                    let s = s.strip_suffix('|').unwrap_or(s);
                    tags.insert(tag_name, TagValue::Ascii(s.to_string()));
"""),
 ]),
 ("ifdgeo-location-match", ["ifd_geo"], [
    ("src/ifd.rs", """                let tag_name = if let Ok(tag_name) = GeoKeyTag::try_from_primitive(key_id) {
                    tag_name
                } else {
                    // Skip unknown GeoKeyTag ids. Some GeoTIFFs include keys that were proposed
                    // but not included in the GeoTIFF spec. See
                    // https://github.com/developmentseed/async-tiff/pull/131 and
                    // https://github.com/virtual-zarr/virtual-tiff/issues/52
                    continue;
                };

                let tag_location = chunk[1];
                let count = chunk[2];
                let value_offset = chunk[3];
""", """                let Ok(tag_name) = GeoKeyTag::try_from_primitive(key_id) else {
                    continue;
                };

                let (tag_location, count, value_offset) = (chunk[1], chunk[2], chunk[3]);
"""),
 ]),
 ("geo-for-loop", ["geo"], [
    ("src/geo/geo_key_directory.rs", "        tag_data.drain().try_for_each(|(tag, value)| {\n", "        for (tag, value) in tag_data.drain() {\n"),
    ("src/geo/geo_key_directory.rs", """            };
            Ok::<_, TiffError>(())
        })?;
""", """            }
        }
"""),
    ("src/geo/geo_key_directory.rs", "use crate::error::{TiffError, TiffResult};", "use crate::error::TiffResult;"),
    ("src/geo/geo_key_directory.rs", """        if let Some(projected_type) = self.projected_type {
            Some(projected_type)
        } else {
            self.geographic_type
        }
""", """        self.projected_type.or(self.geographic_type)
"""),
 ]),
 # ---- access
 ("access-header-loop", ["access"], [
    ("src/tiff.rs", """        self.ifds
            .iter()
            .flat_map(|ifd| {
                ifd.tile_offsets()
                    .into_iter()
                    .chain(ifd.strip_offsets())
                    .flatten()
                    .copied()
                    .filter(|&o| o != 0)
            })
            .min()
            .expect("TIFF spec requires every IFD to have StripOffsets or TileOffsets")
""", """        let mut smallest: Option<u64> = None;
        for ifd in &self.ifds {
            for offsets in [ifd.tile_offsets(), ifd.strip_offsets()].into_iter().flatten() {
                for &offset in offsets {
                    if offset != 0 && smallest.map_or(true, |s| offset < s) {
                        smallest = Some(offset);
                    }
                }
            }
        }
        smallest.expect("TIFF spec requires every IFD to have StripOffsets or TileOffsets")
"""),
 ]),
 ("access-header-filter-order", ["access"], [
    ("src/tiff.rs", """                ifd.tile_offsets()
                    .into_iter()
                    .chain(ifd.strip_offsets())
                    .flatten()
                    .copied()
                    .filter(|&o| o != 0)
            })
            .min()
            .expect("TIFF spec requires every IFD to have StripOffsets or TileOffsets")
    }
}
""", """                ifd.strip_offsets()
                    .into_iter()
                    .chain(ifd.tile_offsets())
                    .flatten()
                    .filter(|o| **o > 0)
            })
            .copied()
            .min()
            .expect("TIFF spec requires every IFD to have StripOffsets or TileOffsets")
    }
}
"""),
 ]),
 ("access-deref", ["access"], [
    ("src/ifd.rs", """        self.tile_offsets.as_deref()
    }""", """        self.tile_offsets.as_ref().map(|v| v.as_slice())
    }"""),
    ("src/ifd.rs", """        self.copyright.as_deref()
    }""", """        match &self.copyright {
            Some(s) => Some(s.as_str()),
            None => None,
        }
    }"""),
 ]),
 # ---- readers
 ("rd-default-collect", ["readers"], [
    ("src/reader.rs", """        for range in ranges.into_iter() {
            let data = self.get_bytes(range).await?;
            result.push(data);
        }

        Ok(result)
""", """        for range in ranges {
            result.push(self.get_bytes(range).await?);
        }
        Ok(result)
"""),
 ]),
 ("rd-tokio-match", ["readers"], [
    ("src/reader.rs", """        let read = (&mut *file).take(to_read).read_to_end(&mut buffer).await? as u64;
        if read != to_read {
            return Err(AsyncTiffError::EndOfFile(to_read, read));
        }

        Ok(buffer.into())
""", """        let read = (&mut *file).take(to_read).read_to_end(&mut buffer).await? as u64;
        if read == to_read {
            Ok(Bytes::from(buffer))
        } else {
            Err(AsyncTiffError::EndOfFile(to_read, read))
        }
"""),
 ]),
 ("rd-object-direct", ["readers"], [
    ("src/reader.rs", """        let range = range.start as _..range.end as _;
        self.store
            .get_range(&self.path, range)
            .map_err(|e| e.into())
            .await
""", """        let bytes = self.store.get_range(&self.path, range).await?;
        Ok(bytes)
"""),
    ("src/reader.rs", """        let ranges = ranges
            .into_iter()
            .map(|r| r.start as _..r.end as _)
            .collect::<Vec<_>>();
        self.store
            .get_ranges(&self.path, &ranges)
            .await
            .map_err(|e| e.into())
""", """        Ok(self.store.get_ranges(&self.path, &ranges).await?)
"""),
    ("src/reader.rs", "use futures::TryFutureExt;\n", "use futures as _;\n"),
 ]),
 # ---- codecs, nd
 ("codec-zlib-helper", ["codecs"], [
    ("src/decoder.rs", """            Some(1) => {
                let mut decoder = ZlibDecoder::new(Cursor::new(buffer));
                let mut buf = Vec::new();
                decoder.read_to_end(&mut buf)?;
                buf
            }
""", """            Some(1) => inflate(buffer)?,
"""),
    ("src/decoder.rs", "// https://github.com/image-rs/image-tiff/blob/3bfb43e83e31b0da476832067ada68a82b378b7b/", """fn inflate(buffer: Bytes) -> AsyncTiffResult<Vec<u8>> {
    let mut buf = Vec::new();
    ZlibDecoder::new(Cursor::new(buffer)).read_to_end(&mut buf)?;
    Ok(buf)
}

// https://github.com/image-rs/image-tiff/blob/3bfb43e83e31b0da476832067ada68a82b378b7b/"""),
 ]),
 ("codec-webp-collect", ["codecs"], [
    ("src/decoder.rs", """            let mut rgba = Vec::with_capacity(data.len() / 3 * 4);
            for chunk in data.chunks_exact(3) {
                rgba.extend_from_slice(chunk);
                rgba.push(255); // opaque alpha
            }
            Ok(rgba)
""", """            Ok(data
                .chunks_exact(3)
                .flat_map(|rgb| [rgb[0], rgb[1], rgb[2], 255])
                .collect())
"""),
 ]),
 ("nd-helper", ["nd"], [
    ("src/ndarray.rs", """            TypedArray::UInt8(data) => Ok(NdArray::Uint8(
                Array3::from_shape_vec(value.shape, data).map_err(|e| {
                    AsyncTiffError::General(format!("Failed to create ndarray: {}", e))
                })?,
            )),
""", """            TypedArray::UInt8(data) => Ok(NdArray::Uint8(to_array3(value.shape, data)?)),
"""),
    ("src/ndarray.rs", """            TypedArray::Int64(data) => Ok(NdArray::Int64(
                Array3::from_shape_vec(value.shape, data).map_err(|e| {
                    AsyncTiffError::General(format!("Failed to create ndarray: {}", e))
                })?,
            )),
""", """            TypedArray::Int64(data) => to_array3(value.shape, data).map(NdArray::Int64),
"""),
    ("src/ndarray.rs", "impl TryFrom<Array> for NdArray {", """fn to_array3<T>(shape: [usize; 3], data: Vec<T>) -> Result<Array3<T>, AsyncTiffError> {
    Array3::from_shape_vec(shape, data)
        .map_err(|e| AsyncTiffError::General(format!("Failed to create ndarray: {}", e)))
}

impl TryFrom<Array> for NdArray {"""),
 ]),

 # ---- second batch
 ("arr2-try-fold", ["array"], [
    ("src/array.rs", """        let expected_len = shape[0]
            .checked_mul(shape[1])
            .and_then(|len| len.checked_mul(shape[2]))
            .ok_or_else(|| {
                AsyncTiffError::General(format!("Array shape {shape:?} is too large"))
            })?;
""", """        let expected_len = shape
            .iter()
            .try_fold(1usize, |len, n| len.checked_mul(*n))
            .ok_or_else(|| {
                AsyncTiffError::General(format!("Array shape {shape:?} is too large"))
            })?;
"""),
 ]),
 ("arr2-bitmask-map", ["array"], [
    ("src/array.rs", """    let mut result = Vec::with_capacity(len);
    for i in 0..len {
        let byte_idx = i / 8;
        let bit_idx = 7 - (i % 8); // MSB first within each byte
        let bit = (data[byte_idx] >> bit_idx) & 1;
        result.push(bit == 1);
    }
    result""", """    (0..len)
        .map(|i| data[i / 8] & (0x80 >> (i % 8)) != 0)
        .collect()"""),
 ]),
 ("arr2-len-let", ["array"], [
    ("src/array.rs", """            let typed_data = TypedArray::try_new(data, data_type)?;
            if typed_data.len() != expected_len {
                return Err(""", """            let typed_data = TypedArray::try_new(data, data_type)?;
            let actual_len = typed_data.len();
            if actual_len > expected_len || actual_len < expected_len {
                return Err("""),
 ]),
 ("pred2-swap", ["predictor"], [
    (P, """            9..=16 => buffer.chunks_exact_mut(2).for_each(|v| {
                v.copy_from_slice(&u16::from_be_bytes((*v).try_into().unwrap()).to_ne_bytes())
            }),
""", """            9..=16 => {
                for v in buffer.chunks_exact_mut(2) {
                    v.swap(0, 1);
                }
            }
"""),
 ]),
 ("pred2-float-while", ["predictor"], [
    (P, """    for (in_row, out_row) in buffer
        .chunks_mut(row_stride)
        .zip(out.chunks_mut(row_stride))
    {
        match bits_per_sample {
            16 => rev_predict_f16(in_row, out_row, samples),
            32 => rev_predict_f32(in_row, out_row, samples),
            64 => rev_predict_f64(in_row, out_row, samples),
            _ => {
                return Err(AsyncTiffError::General(format!(
                    "Floating-point predictor not supported for {bits_per_sample}-bit samples"
                )))
            }
        }
    }
""", """    let mut start = 0;
    while start < buffer.len() {
        let end = buffer.len().min(start + row_stride);
        let in_row = &mut buffer[start..end];
        let out_row = &mut out[start..end];
        match bits_per_sample {
            16 => rev_predict_f16(in_row, out_row, samples),
            32 => rev_predict_f32(in_row, out_row, samples),
            64 => rev_predict_f64(in_row, out_row, samples),
            _ => {
                return Err(AsyncTiffError::General(format!(
                    "Floating-point predictor not supported for {bits_per_sample}-bit samples"
                )))
            }
        }
        start = end;
    }
"""),
 ]),
 ("pred2-f32-let", ["predictor"], [
    (P, """    for (i, chunk) in output.chunks_exact_mut(4).enumerate() {
        chunk.copy_from_slice(&u32::to_ne_bytes(u32::from_be_bytes([
            input[i],
            input[input.len() / 4 + i],
            input[input.len() / 4 * 2 + i],
            input[input.len() / 4 * 3 + i],
        ])));
    }
""", """    let plane = input.len() / 4;
    for (i, chunk) in output.chunks_exact_mut(4).enumerate() {
        let bytes = [
            input[i],
            input[plane + i],
            input[2 * plane + i],
            input[3 * plane + i],
        ];
        let value = u32::from_be_bytes(bytes);
        chunk.copy_from_slice(&value.to_ne_bytes());
    }
"""),
 ]),
 ("pred2-hdiff-stride-checks", ["predictor"], [
    (P, """    if row_stride == 0 || row_stride % word_size != 0 || buffer.len() % word_size != 0 {
        return Err(""", """    let whole_words = row_stride.is_multiple_of(word_size) && buffer.len().is_multiple_of(word_size);
    if row_stride == 0 || !whole_words {
        return Err("""),
 ]),
 ("cache2-slice-absolute", ["cache"], [
    ("src/metadata/cache.rs", """        // The remaining range of bytes required. This range is updated as we traverse buffers, so
        // the indexes are relative to the current buffer.
        let mut remaining = range;
        let mut out_buffers: Vec<Bytes> = vec![];

        for buf in &self.buffers {
            let current_buf_len = buf.len() as u64;

            // this block falls entirely before the desired range start
            if remaining.start >= current_buf_len {
                remaining.start -= current_buf_len;
                remaining.end -= current_buf_len;
                continue;
            }

            // we slice bytes out of *this* block
            let start = remaining.start as usize;
            let length =
                (remaining.end - remaining.start).min(current_buf_len - remaining.start) as usize;
            let end = start + length;

            // nothing to take from this block
            if start == end {
                continue;
            }

            let chunk = buf.slice(start..end);
            out_buffers.push(chunk);

            // consumed some portion; update and potentially break
            remaining.start = 0;
            if remaining.end <= current_buf_len {
                break;
            }
            remaining.end -= current_buf_len;
        }
""", """        let mut out_buffers: Vec<Bytes> = vec![];
        // the offset of the current buffer
        let mut base = 0u64;
        for buf in &self.buffers {
            let next = base + buf.len() as u64;
            let start = range.start.max(base);
            let end = range.end.min(next);
            if start < end {
                out_buffers.push(buf.slice((start - base) as usize..(end - base) as usize));
            }
            base = next;
        }
"""),
 ]),
 ("cache2-next-size-match", ["cache"], [
    ("src/metadata/cache.rs", """        if existing_len == 0 {
            self.initial
        } else {
            (existing_len as f64 * self.multiplier).round() as u64
        }""", """        match existing_len {
            0 => self.initial,
            len => {
                let grown = len as f64 * self.multiplier;
                grown.round() as u64
            }
        }"""),
 ]),
 ("cache2-scope", ["cache"], [
    ("src/metadata/cache.rs", """        let bytes = self.inner.fetch(fetch_range).await?;

        // Now append safely
        cache.append_buffer(bytes);

        Ok(cache.slice(range))""", """        let bytes = self.inner.fetch(fetch_range).await?;

        // Now append safely
        cache.append_buffer(bytes);

        let out = cache.slice(range);
        drop(cache);
        Ok(out)"""),
 ]),
 ("meta2-bigtiff-helper", ["meta"], [
    ("src/metadata/reader.rs", """                // Read bytesize of offsets (in bigtiff it's alway 8 but provide a way to move to 16 some day)
                if cursor.read_u16().await? != 8 {
                    return Err(
                        TiffError::FormatError(TiffFormatError::TiffSignatureNotFound).into(),
                    );
                }
                // This constant should always be 0
                if cursor.read_u16().await? != 0 {
                    return Err(
                        TiffError::FormatError(TiffFormatError::TiffSignatureNotFound).into(),
                    );
                }
                true""", """                let offset_size = cursor.read_u16().await?;
                if offset_size == 8 {
                    let constant = cursor.read_u16().await?;
                    if constant == 0 {
                        true
                    } else {
                        return Err(
                            TiffError::FormatError(TiffFormatError::TiffSignatureNotFound).into(),
                        );
                    }
                } else {
                    return Err(
                        TiffError::FormatError(TiffFormatError::TiffSignatureNotFound).into(),
                    );
                }"""),
 ]),
 ("meta2-finish-then", ["meta"], [
    ("src/metadata/reader.rs", """        // If the ifd_offset is 0, no more IFDs
        if next_ifd_offset == 0 {
            Ok(None)
        } else {
            Ok(Some(next_ifd_offset))
        }""", """        // If the ifd_offset is 0, no more IFDs
        Ok((next_ifd_offset != 0).then_some(next_ifd_offset))"""),
 ]),
 ("meta2-has-next", ["meta"], [
    ("src/metadata/reader.rs", """        while let Some(ifd) = self.read_next_ifd(fetch).await? {
            if let Some(offset) = self.next_ifd_offset {
                if !visited.insert(offset) {
                    return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
                }
            }
            ifds.push(ifd);
        }
        Ok(ifds)""", """        loop {
            let Some(ifd) = self.read_next_ifd(fetch).await? else {
                return Ok(ifds);
            };
            match self.next_ifd_offset {
                Some(offset) if !visited.insert(offset) => {
                    return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
                }
                _ => ifds.push(ifd),
            }
        }"""),
 ]),
 ("meta2-contains-insert", ["meta"], [
    ("src/metadata/reader.rs", """                if !visited.insert(offset) {
                    return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
                }""", """                if visited.contains(&offset) {
                    return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
                }
                visited.insert(offset);"""),
 ]),
 ("meta2-read-tag-inline", ["meta"], [
    ("src/metadata/reader.rs", """        let (tag_name, tag_value) =
            read_tag(fetch, tag_offset, self.endianness, self.bigtiff).await?;
        Ok((tag_name, tag_value))""", """        read_tag(fetch, tag_offset, self.endianness, self.bigtiff).await"""),
 ]),
 ("mv2-inline-capacity", ["meta_value"], [
    ("src/metadata/reader.rs", """    if value_byte_length <= 4 || bigtiff && value_byte_length <= 8 {
        let mut data = cursor.read(value_byte_length).await?;
        if bigtiff {
            cursor.advance(8 - value_byte_length);
        } else {
            cursor.advance(4 - value_byte_length);
        }
""", """    let inline_size = if bigtiff { 8 } else { 4 };
    if value_byte_length <= inline_size {
        let mut data = cursor.read(value_byte_length).await?;
        cursor.advance(inline_size - value_byte_length);
"""),
 ]),
 ("mv2-offset-helper", ["meta_value"], [
    ("src/metadata/reader.rs", """            Type::DOUBLE => {
                let offset = data.read_u32()?;
                cursor.seek(offset as _);
                TagValue::Double(cursor.read_f64().await?)
            }
            Type::RATIONAL""", """            Type::DOUBLE => {
                cursor.seek(data.read_u32()?.into());
                let value = cursor.read_f64().await?;
                TagValue::Double(value)
            }
            Type::RATIONAL"""),
 ]),
 ("tv2-from", ["tag_value"], [
    ("src/tag_value.rs", """            Byte(val) => Ok(val.into()),
            Short(val) => Ok(val),
            Unsigned(val) => Ok(u16::try_from(val)?),
            UnsignedBig(val) => Ok(u16::try_from(val)?),""", """            Byte(val) => Ok(u16::from(val)),
            Short(val) => Ok(val),
            Unsigned(val) => {
                let val = u16::try_from(val)?;
                Ok(val)
            }
            UnsignedBig(val) => val.try_into().map_err(TiffError::from),"""),
 ]),
 ("tv2-single-then-vec", ["tag_value"], [
    ("src/tag_value.rs", """            Byte(val) => Ok(vec![val.into()]),
            Short(val) => Ok(vec![val.into()]),
            Unsigned(val) => Ok(vec![val]),
            UnsignedBig(val) => Ok(vec![u32::try_from(val)?]),
            Rational""", """            val @ (Byte(_) | Short(_) | Unsigned(_) | UnsignedBig(_)) => Ok(vec![val.into_u32()?]),
            Rational"""),
 ]),
 ("tiles2-count-let", ["tiles"], [
    ("src/ifd.rs", """        if self.tile_width == Some(0) || self.tile_height == Some(0) {
            return None;
        }
        let x_count = (self.image_width as f64 / self.tile_width? as f64).ceil();
        let y_count = (self.image_height as f64 / self.tile_height? as f64).ceil();
        Some((x_count as usize, y_count as usize))""", """        let (tile_width, tile_height) = (self.tile_width?, self.tile_height?);
        if tile_width == 0 || tile_height == 0 {
            return None;
        }
        let count = |image: u32, tile: u32| (image as f64 / tile as f64).ceil() as usize;
        Some((
            count(self.image_width, tile_width),
            count(self.image_height, tile_height),
        ))"""),
 ]),
 ("tiles2-zip-get", ["tiles"], [
    ("src/ifd.rs", """                let idx = (y * tiles_per_row) + x;
                let offset = *tile_offsets.get(idx)?;
                let byte_count = *tile_byte_counts.get(idx)?;
                let end = offset.checked_add(byte_count)?;
                Some(TileByteRange::Chunky(offset..end))""", """                let idx = x + tiles_per_row * y;
                match (tile_offsets.get(idx), tile_byte_counts.get(idx)) {
                    (Some(&offset), Some(&byte_count)) => offset
                        .checked_add(byte_count)
                        .map(|end| TileByteRange::Chunky(offset..end)),
                    _ => None,
                }"""),
 ]),
 ("tiles2-into-fetch-map", ["tiles"], [
    ("src/ifd.rs", """                let band_counts: Vec<usize> = ranges.iter().map(|r| r.len()).collect();
                let flat_ranges: Vec<Range<u64>> = ranges.into_iter().flatten().collect();
""", """                let mut band_counts = Vec::with_capacity(ranges.len());
                let mut flat_ranges = Vec::new();
                for tile_ranges in ranges {
                    band_counts.push(tile_ranges.len());
                    flat_ranges.extend(tile_ranges);
                }
"""),
 ]),
 ("dec2-decompress-helper", ["decode"], [
    ("src/tile.rs", """        let predictor_samples = match &self.compressed_bytes {
            CompressedBytes::Chunky(_) => samples,
            CompressedBytes::Planar(_) => 1,
        };
""", """        let is_planar = matches!(self.compressed_bytes, CompressedBytes::Planar(_));
        let predictor_samples = if is_planar { 1 } else { samples };
"""),
 ]),
 ("dec2-if-let", ["decode"], [
    ("src/tile.rs", """        let decoder = decoder_registry
            .as_ref()
            .get(&self.compression_method)
            .ok_or(TiffError::UnsupportedError(
                TiffUnsupportedError::UnsupportedCompression(self.compression_method),
            ))?;
""", """        let Some(decoder) = decoder_registry.as_ref().get(&self.compression_method) else {
            return Err(TiffError::UnsupportedError(
                TiffUnsupportedError::UnsupportedCompression(self.compression_method),
            )
            .into());
        };
"""),
 ]),
 ("nd2-destructure", ["nd"], [
    ("src/ndarray.rs", """        match value.data {
            TypedArray::Bool(data) => Ok(NdArray::Bool(
                Array3::from_shape_vec(value.shape, data).map_err(|e| {""", """        let Array { data, shape, .. } = value;
        let value = Array {
            data,
            shape,
            data_type: None,
        };
        match value.data {
            TypedArray::Bool(data) => Ok(NdArray::Bool(
                Array3::from_shape_vec(shape, data).map_err(|e| {"""),
 ]),
 ("codec2-read-all", ["codecs"], [
    ("src/decoder.rs", """        let mut reader = XzReader::new(buffer.reader(), false);
        let mut out = Vec::new();
        reader.read_to_end(&mut out)?;
        Ok(out)""", """        let mut out = vec![];
        XzReader::new(buffer.reader(), false).read_to_end(&mut out)?;
        Ok(out)"""),
 ]),
 ("codec2-lerc-let", ["codecs"], [
    ("src/decoder.rs", """        let lerc_blob: Vec<u8> = match lerc_parameters.and_then(|p| p.get(1).copied()) {
            Some(1) => {""", """        let inner_compression = match lerc_parameters {
            Some(p) if p.len() > 1 => Some(p[1]),
            _ => None,
        };
        let lerc_blob: Vec<u8> = match inner_compression {
            Some(1) => {"""),
 ]),
 ("codec2-jpeg-transform", ["codecs"], [
    ("src/decoder.rs", """    match photometric_interpretation {
        PhotometricInterpretation::RGB => decoder.set_color_transform(jpeg::ColorTransform::RGB),
        PhotometricInterpretation::WhiteIsZero
        | PhotometricInterpretation::BlackIsZero
        | PhotometricInterpretation::TransparencyMask => {
            decoder.set_color_transform(jpeg::ColorTransform::None)
        }
        PhotometricInterpretation::CMYK => decoder.set_color_transform(jpeg::ColorTransform::CMYK),
        PhotometricInterpretation::YCbCr => {
            decoder.set_color_transform(jpeg::ColorTransform::YCbCr)
        }
        photometric_interpretation => {""", """    let transform = match photometric_interpretation {
        PhotometricInterpretation::RGB => jpeg::ColorTransform::RGB,
        PhotometricInterpretation::WhiteIsZero
        | PhotometricInterpretation::BlackIsZero
        | PhotometricInterpretation::TransparencyMask => jpeg::ColorTransform::None,
        PhotometricInterpretation::CMYK => jpeg::ColorTransform::CMYK,
        PhotometricInterpretation::YCbCr => jpeg::ColorTransform::YCbCr,
        photometric_interpretation => {"""),
    ("src/decoder.rs", """            .into());
        }
    }

    let data = decoder.decode()?;""", """            .into());
        }
    };
    decoder.set_color_transform(transform);

    let data = decoder.decode()?;"""),
 ]),
 ("rd2-tokio-len", ["readers"], [
    ("src/reader.rs", """        let read = (&mut *file).take(to_read).read_to_end(&mut buffer).await? as u64;
        if read != to_read {
            return Err(AsyncTiffError::EndOfFile(to_read, read));
        }

        Ok(buffer.into())""", """        (&mut *file).take(to_read).read_to_end(&mut buffer).await?;
        let read = buffer.len() as u64;
        if read == to_read {
            Ok(Bytes::from(buffer))
        } else {
            Err(AsyncTiffError::EndOfFile(to_read, read))
        }"""),
 ]),
 ("rd2-reqwest-last", ["readers"], [
    ("src/reader.rs", """        let range = format!("bytes={}-{}", range.start, range.end - 1);
        let response = client
            .get(url)
            .header("Range", range)
            .send()
            .await?
            .error_for_status()?;
        let bytes = response.bytes().await?;
        Ok(bytes)""", """        let last = range.end - 1;
        let value = format!("bytes={}-{last}", range.start);
        let request = client.get(url).header("Range", value);
        let response = request.send().await?.error_for_status()?;
        Ok(response.bytes().await?)"""),
 ]),
 ("ifd2-geo-let-else", ["ifd", "ifd_geo"], [
    ("src/ifd.rs", """                let tag_name = if let Ok(tag_name) = GeoKeyTag::try_from_primitive(key_id) {
                    tag_name
                } else {
""", """                let Ok(tag_name) = GeoKeyTag::try_from_primitive(key_id) else {
"""),
 ]),
 ("ifd2-required-first", ["ifd"], [
    ("src/ifd.rs", """        Ok(Self {
            endianness,
            new_subfile_type,
            image_width: image_width.ok_or(required_tag_not_found(Tag::ImageWidth))?,
            image_height: image_height.ok_or(required_tag_not_found(Tag::ImageLength))?,
            bits_per_sample,
""", """        let image_height = image_height.ok_or(required_tag_not_found(Tag::ImageLength))?;
        let image_width = image_width.ok_or(required_tag_not_found(Tag::ImageWidth))?;
        Ok(Self {
            endianness,
            new_subfile_type,
            image_width,
            image_height,
            bits_per_sample,
"""),
 ]),
 ("access2-header-min", ["access"], [
    ("src/tiff.rs", """                    .flatten()
                    .copied()
                    .filter(|&o| o != 0)
            })
            .min()
            .expect("TIFF spec""", """                    .flat_map(|offsets| offsets.iter().copied())
                    .filter(|o| *o > 0)
            })
            .reduce(u64::min)
            .expect("TIFF spec"""),
 ]),

 ("codec3-registry-loop", ["codecs"], [
    ("src/decoder.rs", """        registry.insert(Compression::None, Box::new(UncompressedDecoder) as _);
        registry.insert(Compression::Deflate, Box::new(DeflateDecoder) as _);
        registry.insert(Compression::OldDeflate, Box::new(DeflateDecoder) as _);
""", """        registry.insert(Compression::None, Box::new(UncompressedDecoder) as _);
        for method in [Compression::OldDeflate, Compression::Deflate] {
            registry.insert(method, Box::new(DeflateDecoder) as _);
        }
"""),
 ]),
 ("codec3-registry-helper", ["codecs"], [
    ("src/decoder.rs", """        registry.insert(Compression::LZW, Box::new(LZWDecoder) as _);
        registry.insert(Compression::ModernJPEG, Box::new(JPEGDecoder) as _);
""", """        registry.insert(Compression::ModernJPEG, Box::new(JPEGDecoder) as _);
        let lzw: Box<dyn Decoder> = Box::new(LZWDecoder);
        registry.insert(Compression::LZW, lzw);
"""),
 ]),
 ("codec3-deflate-let", ["codecs"], [
    ("src/decoder.rs", """        let mut decoder = ZlibDecoder::new(Cursor::new(buffer));
        let mut buf = Vec::new();
        decoder.read_to_end(&mut buf)?;
        Ok(buf)
""", """        let compressed = Cursor::new(buffer);
        let mut out = Vec::new();
        match ZlibDecoder::new(compressed).read_to_end(&mut out) {
            Ok(_) => Ok(out),
            Err(e) => Err(e.into()),
        }
"""),
 ]),
 ("dt3-split-first", ["data_type"], [
    ("src/data_type.rs", """        let first_format = sample_format.first()?;
        let first_bits = bits_per_sample.first()?;

        // Check that all samples have consistent format and bit depth
        if !sample_format.iter().all(|f| f == first_format) {
            return None;
        }
        if !bits_per_sample.iter().all(|b| b == first_bits) {
            return None;
        }
""", """        let (first_bits, other_bits) = bits_per_sample.split_first()?;
        let (first_format, other_formats) = sample_format.split_first()?;
        for bits in other_bits {
            if bits != first_bits {
                return None;
            }
        }
        for format in other_formats {
            if format != first_format {
                return None;
            }
        }
"""),
 ]),
 ("dt3-windows", ["data_type"], [
    ("src/data_type.rs", """        if !bits_per_sample.iter().all(|b| b == first_bits) {
            return None;
        }
""", """        if bits_per_sample.iter().skip(1).filter(|b| *b != first_bits).count() > 0 {
            return None;
        }
"""),
 ]),
 ("rd3-default-while", ["readers"], [
    ("src/reader.rs", """        let mut result = Vec::with_capacity(ranges.len());

        for range in ranges.into_iter() {
            let data = self.get_bytes(range).await?;
            result.push(data);
        }

        Ok(result)
""", """        let mut result = Vec::new();
        let mut i = 0;
        while i < ranges.len() {
            result.push(self.get_bytes(ranges[i].clone()).await?);
            i += 1;
        }
        Ok(result)
"""),
 ]),
 ("rd3-object-loop", ["readers"], [
    ("src/reader.rs", """        let ranges = ranges
            .into_iter()
            .map(|r| r.start as _..r.end as _)
            .collect::<Vec<_>>();
        self.store
            .get_ranges(&self.path, &ranges)
            .await
            .map_err(|e| e.into())
""", """        let buffers = self.store.get_ranges(&self.path, &ranges).await?;
        Ok(buffers)
"""),
 ]),
 ("rd3-reqwest-chain", ["readers"], [
    ("src/reader.rs", """        let url = self.url.clone();
        let client = self.client.clone();
        // HTTP range is inclusive, so we need to subtract 1 from the end
        let range = format!("bytes={}-{}", range.start, range.end - 1);
        let response = client
            .get(url)
            .header("Range", range)
            .send()
            .await?
            .error_for_status()?;
        let bytes = response.bytes().await?;
        Ok(bytes)
""", """        let Range { start, end } = range;
        // HTTP range is inclusive, so we need to subtract 1 from the end
        let last = end - 1;
        let header = format!("bytes={start}-{last}");
        let request = self.client.get(self.url.clone()).header("Range", header);
        let response = request.send().await?.error_for_status()?;
        Ok(response.bytes().await?)
"""),
 ]),
 ("rd3-tokio-error-first", ["readers"], [
    ("src/reader.rs", """        if read != to_read {
            return Err(AsyncTiffError::EndOfFile(to_read, read));
        }

        Ok(buffer.into())
""", """        if read == to_read {
            Ok(Bytes::from(buffer))
        } else {
            Err(AsyncTiffError::EndOfFile(to_read, read))
        }
"""),
 ]),
 ("rd3-u16-order", ["meta"], [
    ("src/reader.rs", """    pub(crate) fn read_u16(&mut self) -> AsyncTiffResult<u16> {
        match self.endianness {
            Endianness::LittleEndian => Ok(self.reader.read_u16::<LittleEndian>()?),
            Endianness::BigEndian => Ok(self.reader.read_u16::<BigEndian>()?),
        }
""", """    pub(crate) fn read_u16(&mut self) -> AsyncTiffResult<u16> {
        let value = if self.endianness == Endianness::BigEndian {
            self.reader.read_u16::<BigEndian>()?
        } else {
            self.reader.read_u16::<LittleEndian>()?
        };
        Ok(value)
"""),
 ]),
 ("nd3-if-none", ["nd"], [
    ("src/ndarray.rs", """        value
            .data_type
            .ok_or_else(|| AsyncTiffError::General("Unknown data type".to_string()))?;
""", """        if value.data_type.is_none() {
            return Err(AsyncTiffError::General("Unknown data type".to_string()));
        }
"""),
 ]),

 ("pred4-order-test", ["predictor"], [
    (P, """    match byte_order {
        Endianness::LittleEndian => match bits_per_sample {
            0..=8 => {}
            9..=16 => buffer.chunks_exact_mut(2).for_each(|v| {
                v.copy_from_slice(&u16::from_le_bytes((*v).try_into().unwrap()).to_ne_bytes())
            }),
            17..=32 => buffer.chunks_exact_mut(4).for_each(|v| {
                v.copy_from_slice(&u32::from_le_bytes((*v).try_into().unwrap()).to_ne_bytes())
            }),
            _ => buffer.chunks_exact_mut(8).for_each(|v| {
                v.copy_from_slice(&u64::from_le_bytes((*v).try_into().unwrap()).to_ne_bytes())
            }),
        },
        Endianness::BigEndian => match bits_per_sample {
            0..=8 => {}
            9..=16 => buffer.chunks_exact_mut(2).for_each(|v| {
                v.copy_from_slice(&u16::from_be_bytes((*v).try_into().unwrap()).to_ne_bytes())
            }),
            17..=32 => buffer.chunks_exact_mut(4).for_each(|v| {
                v.copy_from_slice(&u32::from_be_bytes((*v).try_into().unwrap()).to_ne_bytes())
            }),
            _ => buffer.chunks_exact_mut(8).for_each(|v| {
                v.copy_from_slice(&u64::from_be_bytes((*v).try_into().unwrap()).to_ne_bytes())
            }),
        },
    }
""", """    if byte_order.is_native() {
        return;
    }
    let width = match bits_per_sample {
        0..=8 => return,
        9..=16 => 2,
        17..=32 => 4,
        _ => 8,
    };
    for word in buffer.chunks_exact_mut(width) {
        word.reverse();
    }
"""),
 ]),
 ("pred4-hdiff-index-rows", ["predictor"], [
    (P, """    for row in buffer.chunks_mut(row_stride) {
        rev_hpredict_row(row, bits_per_sample, samples);
    }

    Ok(buffer)
""", """    buffer
        .chunks_mut(row_stride)
        .for_each(|row| rev_hpredict_row(row, bits_per_sample, samples));

    Ok(buffer)
"""),
 ]),
 ("pred4-row16-let", ["predictor"], [
    (P, """            for i in (samples * 2..row.len()).step_by(2) {
                let v = u16::from_ne_bytes(row[i..][..2].try_into().unwrap());
                let p = u16::from_ne_bytes(row[i - 2 * samples..][..2].try_into().unwrap());
                row[i..][..2].copy_from_slice(&v.wrapping_add(p).to_ne_bytes());
            }
""", """            let back = 2 * samples;
            for i in (back..row.len()).step_by(2) {
                let prev = u16::from_ne_bytes([row[i - back], row[i - back + 1]]);
                let delta = u16::from_ne_bytes([row[i], row[i + 1]]);
                let sum = prev.wrapping_add(delta).to_ne_bytes();
                row[i] = sum[0];
                row[i + 1] = sum[1];
            }
"""),
 ]),
 ("meta4-read-all-loop", ["meta"], [
    ("src/metadata/reader.rs", """        while let Some(ifd) = self.read_next_ifd(fetch).await? {
            if let Some(offset) = self.next_ifd_offset {
                if !visited.insert(offset) {
                    return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
                }
            }
            ifds.push(ifd);
        }
        Ok(ifds)
""", """        loop {
            let Some(ifd) = self.read_next_ifd(fetch).await? else {
                return Ok(ifds);
            };
            match self.next_ifd_offset {
                Some(offset) if !visited.insert(offset) => {
                    return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
                }
                _ => ifds.push(ifd),
            }
        }
"""),
 ]),
 ("meta4-next-match", ["meta"], [
    ("src/metadata/reader.rs", """            let ifd = ifd_reader.read(fetch).await?;
            let next_ifd_offset = ifd_reader.finish(fetch).await?;
            self.next_ifd_offset = next_ifd_offset;
            Ok(Some(ifd))
""", """            let ifd = Some(ifd_reader.read(fetch).await?);
            self.next_ifd_offset = ifd_reader.finish(fetch).await?;
            Ok(ifd)
"""),
 ]),
 ("tiles4-count-zip", ["tiles"], [
    ("src/ifd.rs", """        if self.tile_width == Some(0) || self.tile_height == Some(0) {
            return None;
        }
        let x_count = (self.image_width as f64 / self.tile_width? as f64).ceil();
        let y_count = (self.image_height as f64 / self.tile_height? as f64).ceil();
        Some((x_count as usize, y_count as usize))
""", """        let (tile_width, tile_height) = (self.tile_width?, self.tile_height?);
        if tile_width == 0 || tile_height == 0 {
            return None;
        }
        let count = |size: u32, tile: u32| (size as f64 / tile as f64).ceil() as usize;
        Some((
            count(self.image_width, tile_width),
            count(self.image_height, tile_height),
        ))
"""),
 ]),
 ("dec4-lookup", ["decode"], [
    ("src/tile.rs", """        let decoder = decoder_registry
            .as_ref()
            .get(&self.compression_method)
            .ok_or(TiffError::UnsupportedError(
                TiffUnsupportedError::UnsupportedCompression(self.compression_method),
            ))?;
""", """        let Some(decoder) = decoder_registry.as_ref().get(&self.compression_method) else {
            return Err(TiffError::UnsupportedError(
                TiffUnsupportedError::UnsupportedCompression(self.compression_method),
            )
            .into());
        };
"""),
 ]),
 ("dec4-native-helper", ["decode"], [
    ("src/tile.rs", """        let endianness = match self.compression_method {
            Compression::ModernJPEG | Compression::JPEG2k | Compression::LERC => {
                if cfg!(target_endian = "little") {
                    Endianness::LittleEndian
                } else {
                    Endianness::BigEndian
                }
            }
            _ => self.endianness,
        };
""", """        let endianness = stored_order(self.compression_method, self.endianness);
"""),
    ("src/tile.rs", """fn infer_shape(
""", """fn stored_order(compression: Compression, file: Endianness) -> Endianness {
    let own_order = matches!(
        compression,
        Compression::ModernJPEG | Compression::JPEG2k | Compression::LERC
    );
    match (own_order, cfg!(target_endian = "little")) {
        (false, _) => file,
        (true, true) => Endianness::LittleEndian,
        (true, false) => Endianness::BigEndian,
    }
}

fn infer_shape(
"""),
 ]),
 ("geo4-epsg-or", ["geo"], [
    ("src/geo/geo_key_directory.rs", """        if let Some(projected_type) = self.projected_type {
            Some(projected_type)
        } else {
            self.geographic_type
        }
""", """        self.projected_type.or(self.geographic_type)
"""),
 ]),
]
