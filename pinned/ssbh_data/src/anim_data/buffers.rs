use binrw::io::{Cursor, Read, Seek, Write};
use binrw::{BinRead, BinReaderExt, BinResult};
use bitvec::prelude::*;
use itertools::Itertools;

use ssbh_write::SsbhWrite;

use ssbh_lib::{
    formats::anim::{CompressionType, TrackFlags},
    Ptr16, Ptr32, Vector4,
};

use super::{
    bitutils::{BitReadError, BitReader, BitWriter},
    compression::{
        CompressedBuffer, CompressedHeader, CompressedTrackData, Compression, CompressionFlags,
    },
};
use super::{compression::*, error::Error, TrackValues, Transform, UvTransform};

impl TrackValues {
    pub(crate) fn write<W: Write + Seek>(
        &self,
        writer: &mut W,
        compression: CompressionType,
        compensate_scale: bool,
    ) -> Result<(), Error> {
        // TODO: Find a way to simplify calculating the default and compression.
        // TODO: Find a way to clean up this code.
        // The default depends on the values.
        // The compression depends on the values and potentially a quality parameter.
        // ex: calculate_default(values), calculate_compression(values)

        match compression {
            CompressionType::Compressed => {
                let flags = CompressionFlags::from_track(self);

                // TODO: More intelligently choose a bit count
                // For example, if min == max, bit count can be 0, which uses the default.
                // 2^bit_count evenly spaced values can just use bit_count.

                match self {
                    TrackValues::Transform(values) => write_compressed(
                        writer,
                        &values
                            .iter()
                            .map(|t| UncompressedTransform::from_transform(t, compensate_scale))
                            .collect_vec(),
                        flags,
                        compensate_scale,
                    )?,
                    TrackValues::UvTransform(values) => {
                        write_compressed(writer, values, flags, compensate_scale)?
                    }
                    TrackValues::Float(values) => {
                        write_compressed(writer, values, flags, compensate_scale)?
                    }
                    TrackValues::PatternIndex(values) => {
                        write_compressed(writer, values, flags, compensate_scale)?
                    }
                    TrackValues::Boolean(values) => write_compressed(
                        writer,
                        &values.iter().map(Boolean::from).collect_vec(),
                        flags,
                        compensate_scale,
                    )?,
                    TrackValues::Vector4(values) => {
                        write_compressed(writer, values, flags, compensate_scale)?
                    }
                }
            }
            _ => match self {
                TrackValues::Transform(values) => {
                    let values: Vec<_> = values
                        .iter()
                        .map(|t| UncompressedTransform::from_transform(t, compensate_scale))
                        .collect();
                    values.write(writer)?;
                }
                TrackValues::UvTransform(values) => values.write(writer)?,
                TrackValues::Float(values) => values.write(writer)?,
                TrackValues::PatternIndex(values) => values.write(writer)?,
                TrackValues::Boolean(values) => {
                    let values: Vec<Boolean> = values.iter().map(Boolean::from).collect();
                    values.write(writer)?;
                }
                TrackValues::Vector4(values) => values.write(writer)?,
            },
        }

        Ok(())
    }

    // HACK: Use default since SsbhWrite expects self for size in bytes.
    pub(crate) fn compressed_overhead_in_bytes(&self) -> u64 {
        match self {
            TrackValues::Transform(_) => {
                <UncompressedTransform as CompressedData>::compressed_overhead_in_bytes()
            }
            TrackValues::UvTransform(_) => {
                <UvTransform as CompressedData>::compressed_overhead_in_bytes()
            }
            TrackValues::Float(_) => <f32 as CompressedData>::compressed_overhead_in_bytes(),
            TrackValues::PatternIndex(_) => <u32 as CompressedData>::compressed_overhead_in_bytes(),
            TrackValues::Boolean(_) => <Boolean as CompressedData>::compressed_overhead_in_bytes(),
            TrackValues::Vector4(_) => <Vector4 as CompressedData>::compressed_overhead_in_bytes(),
        }
    }

    pub(crate) fn data_size_in_bytes(&self) -> u64 {
        match self {
            TrackValues::Transform(_) => UncompressedTransform::default().size_in_bytes(),
            TrackValues::UvTransform(_) => UvTransform::default().size_in_bytes(),
            TrackValues::Float(_) => f32::default().size_in_bytes(),
            TrackValues::PatternIndex(_) => u32::default().size_in_bytes(),
            TrackValues::Boolean(_) => Boolean::default().size_in_bytes(),
            TrackValues::Vector4(_) => Vector4::default().size_in_bytes(),
        }
    }
}

fn write_compressed<W: Write + Seek, T: CompressedData>(
    writer: &mut W,
    values: &[T],
    flags: CompressionFlags,
    compensate_scale: bool,
) -> Result<(), std::io::Error> {
    let (default, compression) = T::get_default_and_compression(values, compensate_scale);

    let compressed_data = create_compressed_buffer(values, &compression, flags);

    let data = CompressedTrackData::<T> {
        header: CompressedHeader::<T> {
            unk_4: 4,
            flags,
            default_data: Ptr16::new(default),
            bits_per_entry: compression.bit_count(flags) as u16, // TODO: This might overflow.
            compressed_data: Ptr32::new(CompressedBuffer(compressed_data)),
            frame_count: values.len() as u32,
        },
        compression,
    };
    data.write(writer)?;

    Ok(())
}

fn create_compressed_buffer<T: CompressedData>(
    values: &[T],
    compression: &T::Compression,
    flags: CompressionFlags,
) -> Vec<u8> {
    // Construct a single buffer and keep incrementing the bit index.
    // This essentially creates a bit writer buffered with u8 elements.
    // We already know the exact size, so there's no need to reallocate.
    // TODO: Can we reserve size and append instead?
    let mut bits = BitVec::<u8, Lsb0>::new();
    bits.resize(values.len() * compression.bit_count(flags) as usize, false);
    let mut writer = BitWriter::new(bits);

    for v in values {
        v.compress(&mut writer, compression, flags);
    }

    writer.into_bytes()
}

fn read_uncompressed<R, T>(reader: &mut R, frame_count: usize) -> BinResult<Vec<T>>
where
    R: Read + Seek,
    T: for<'a> BinRead<Args<'a> = ()>,
{
    let mut values = Vec::new();
    for _ in 0..frame_count {
        let value: T = reader.read_le()?;
        values.push(value);
    }
    Ok(values)
}

pub fn read_track_values(
    track_data: &[u8],
    flags: TrackFlags,
    count: usize,
) -> Result<(TrackValues, bool), Error> {
    // TODO: Are Const, ConstTransform, and Direct all the same?
    // TODO: Can frame count be higher than 1 for Const and ConstTransform?
    // TODO: Are the names accurate for uncompressed types?
    use crate::anim_data::TrackTypeV2 as TrackTy;
    use crate::anim_data::TrackValues as Values;

    let mut reader = Cursor::new(track_data);

    // TODO: Find a way to collapse this?
    let (values, compensate_scale) = match flags.compression_type {
        CompressionType::Compressed => match flags.track_type {
            TrackTy::Transform => {
                let values: Vec<UncompressedTransform> = read_compressed(&mut reader, count)?;
                // TODO: This should be an error if the values aren't all the same.
                let compensate_scale = values
                    .iter()
                    .map(|t| t.compensate_scale != 0)
                    .next()
                    .unwrap_or_default();
                let values = values.iter().map(Transform::from).collect();

                (Values::Transform(values), compensate_scale)
            }
            TrackTy::UvTransform => (
                Values::UvTransform(read_compressed(&mut reader, count)?),
                false,
            ),
            TrackTy::Float => (Values::Float(read_compressed(&mut reader, count)?), false),
            TrackTy::PatternIndex => (
                Values::PatternIndex(read_compressed(&mut reader, count)?),
                false,
            ),
            TrackTy::Boolean => {
                // TODO: This could be handled by the CompressedData trait.
                // TODO: Create a separate UncompressedData trait?
                // i.e. CompressedData: UncompressedData
                // This may be able to simplify the conversion logic for bool and Transform.
                let values: Vec<Boolean> = read_compressed(&mut reader, count)?;
                (
                    Values::Boolean(values.iter().map(bool::from).collect()),
                    false,
                )
            }
            TrackTy::Vector4 => (Values::Vector4(read_compressed(&mut reader, count)?), false),
        },
        _ => match flags.track_type {
            TrackTy::Transform => {
                let values: Vec<UncompressedTransform> = read_uncompressed(&mut reader, count)?;
                // TODO: This should be an error if the values aren't all the same.
                let compensate_scale = values
                    .iter()
                    .map(|t| t.compensate_scale != 0)
                    .next()
                    .unwrap_or_default();
                (
                    Values::Transform(values.iter().map(Transform::from).collect()),
                    compensate_scale,
                )
            }
            TrackTy::UvTransform => (
                Values::UvTransform(read_uncompressed(&mut reader, count)?),
                false,
            ),
            TrackTy::Float => (Values::Float(read_uncompressed(&mut reader, count)?), false),
            TrackTy::PatternIndex => (
                Values::PatternIndex(read_uncompressed(&mut reader, count)?),
                false,
            ),
            TrackTy::Boolean => {
                let values = read_uncompressed(&mut reader, count)?;
                (
                    Values::Boolean(values.iter().map(bool::from).collect_vec()),
                    false,
                )
            }
            TrackTy::Vector4 => (
                Values::Vector4(read_uncompressed(&mut reader, count)?),
                false,
            ),
        },
    };

    Ok((values, compensate_scale))
}

fn read_compressed<R: Read + Seek, T: CompressedData>(
    reader: &mut R,
    frame_count: usize,
) -> Result<Vec<T>, Error> {
    let data: CompressedTrackData<T> = reader.read_le()?;
    let values = read_compressed_inner(data, frame_count)?;
    Ok(values)
}

fn read_compressed_inner<T: CompressedData>(
    data: CompressedTrackData<T>,
    frame_count: usize,
) -> Result<Vec<T>, Error> {
    // Check for unexpected compression flags.
    // This is either an unresearched flag or an improperly compressed file.
    let expected_bit_count = data.compression.bit_count(data.header.flags) as usize;
    if data.header.bits_per_entry as usize != expected_bit_count {
        return Err(Error::UnexpectedBitCount {
            expected: expected_bit_count,
            actual: data.header.bits_per_entry as usize,
        });
    }

    let buffer = &data
        .header
        .compressed_data
        .as_ref()
        .ok_or(Error::MalformedCompressionHeader)?
        .0;

    // Decompress values.
    let mut reader = BitReader::from_slice(buffer);

    // Encode a repeated value as a single "frame".
    // TODO: Investigate the side effects of forcing uncompressed on save.
    // This prevents a potential out of memory or lengthy loop.
    // This case doesn't occur in any of Smash Ultimate's game files.
    let actual_count = if expected_bit_count == 0 && frame_count > 0 {
        1
    } else {
        frame_count
    };

    // Make sure the buffer contains enough bits for all the values.
    let required_bits = actual_count.checked_mul(expected_bit_count);
    if !required_bits.is_some_and(|bits| bits <= buffer.len().saturating_mul(8)) {
        return Err(BitReadError::NotEnoughBits.into());
    }

    let mut values = Vec::new();
    for _ in 0..actual_count {
        let value = T::decompress(
            &mut reader,
            &data.compression,
            data.header
                .default_data
                .as_ref()
                .ok_or(Error::MalformedCompressionHeader)?,
            T::get_args(&data.header),
        )?;

        values.push(value);
    }

    Ok(values)
}
